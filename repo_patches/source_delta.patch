From bda0bcb97774d16628d6db5c6a5f54e086e6b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 01/87] fix: BitContext::write_bits dropped a bit of every
 6-bit chunk (mask 0x2f)

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From 3e0b8ac7bb969abbf886c9d40d4dbd525504cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 02/87] fix: keep BitContext reads, skips and writes inside its
 buffer

---
 src/io/sps_io_bits.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 365424f..bfebf0b 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -57,7 +57,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
@@ -66,11 +66,19 @@ error_t BitContext::acquire_bits(size_t nbit) {
 
 void BitContext::read_bytes(uint8_t* c, size_t n) {
     assert(remain_bits == 0);
-    memcpy((char *) c, buf + buf_pos + 1, n);
-    buf_pos += n;
+    size_t left = std::min(n, sz - buf_pos - 1);
+    memcpy((char *) c, buf + buf_pos + 1, left);
+    memset((char *) c + left, 0, n - left);
+    buf_pos += left;
 }
 
 void BitContext::skip_read_bytes(size_t n) {
+    if (n > sz - buf_pos - 1) {  // never leave the buffer
+        buf_pos     = (int32_t) sz - 1;
+        remain_bits = 0;
+        return;
+    }
+
     buf_pos += n;
 
     // remain_value is invalid
@@ -103,6 +111,9 @@ uint32_t BitContext::read_bits(size_t n) {
 
     while (n > 0) {
         if (remain_bits == 0) {
+            if (size_bits() == 0) {  // nothing left, pad with zero
+                return n < 32 ? num << n : 0;
+            }
             next();
         }
 
@@ -153,18 +164,22 @@ uint32_t BitContext::read_bits(size_t n) {
 
 void BitContext::write_bytes(uint8_t* c, size_t n) {
     assert(remain_bits == 0);
+    n = std::min(n, sz - buf_pos - 1);
     memcpy( buf + buf_pos + 1, c, n);
     buf_pos += n;
 }
 
 void BitContext::skip_write_bytes(size_t n) {
     assert(remain_bits == 0);
-    buf_pos += n;
+    buf_pos += std::min(n, sz - buf_pos - 1);
 }
 
 void BitContext::write_bits(uint64_t value, size_t n) {
     while (n > 0) {
         if (remain_bits == 0) {
+            if (size_bits() == 0) {  // no room left
+                return;
+            }
             next_write();
         }
 
-- 
2.43.0


From 6b8c057b990b4fc6fedb4c18bcb0175ad463ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 03/87] fix: FLV demuxer took missing codec header bytes from
 the next tag; info and script tags got pts 0

---
 src/avformat/sps_avformat_flvdec.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..dc66ebb 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -132,7 +132,13 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
              "previous: %10u, data_size: %10.u, ",
             stream_type, pkt_type, flags, previous_size, data_size);
 
+    pts = dts;
+
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
+        if (data_size < 2) {
+            sp_error("audio tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
         // sample_size = flags & 0x02    // (0. 8       1. 16)
@@ -145,8 +151,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         }
         pkt_type    =    rd->read_int8();  // 0. sequence header 1. aac data
         data_size   -=   2;
-        pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
+        if (data_size < 1) {
+            sp_error("video tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
         flags       = rd->read_int8();
 
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
@@ -160,6 +169,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("video tag too short %d", data_size);
+                return ERROR_FLV_TAG;
+            }
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 8f07a42daf050dc442c5e61d9c572401894f2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 04/87] fix: choose a media format by its whole extension

---
 src/avformat/sps_avformat_dec.cpp | 4 +---
 src/avformat/sps_avformat_enc.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_dec.cpp b/src/avformat/sps_avformat_dec.cpp
index 0c41c93..2f43972 100644
--- a/src/avformat/sps_avformat_dec.cpp
+++ b/src/avformat/sps_avformat_dec.cpp
@@ -35,9 +35,7 @@ IAVInputFormat::IAVInputFormat(const char *name, const char *ext) {
 }
 
 bool IAVInputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return  memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVDemuxer IAVInputFormat::create2(PIReader p) {
diff --git a/src/avformat/sps_avformat_enc.cpp b/src/avformat/sps_avformat_enc.cpp
index 1a1032c..941169e 100644
--- a/src/avformat/sps_avformat_enc.cpp
+++ b/src/avformat/sps_avformat_enc.cpp
@@ -41,9 +41,7 @@ IAVOutputFormat::IAVOutputFormat(const char *name, const char *ext) {
 }
 
 bool IAVOutputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVMuxer IAVOutputFormat::create2(PIWriter pw, PRequestUrl& url) {
-- 
2.43.0


From c95505babda03c427e23062519f25107206b2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 05/87] fix: FLV video info frames are not sequence headers

---
 src/avformat/sps_avformat_flvdec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index dc66ebb..9a09484 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -182,6 +182,8 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
 
             pts = dts + cts;
             data_size = data_size - 4;
+        } else {
+            pkt_type = AV_VIDEO_TYPE_DATA;
         }
 
         if (frame_type == 0x10) {
-- 
2.43.0


From 2ff6c58c47f3007d4950f75d6a9889a7c9fa4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:44 +0000
Subject: [PATCH 06/87] fix: zero bytes between Annex-B NAL units are not part
 of the NAL

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..9854fb9 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -215,10 +215,19 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
             return ERROR_H264_DECODER;
         }
 
+        size_t skip_size = nalu_size;
+        if (!is_avc) {
+            // zeros before the next start code (00 00 00 01) or at the end
+            // are not part of the nalu
+            while (nalu_size > 1 && bc.pos()[nalu_size - 1] == 0) {
+                --nalu_size;
+            }
+        }
+
         if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
             return ret;
         }
-        bc.skip_read_bytes(nalu_size);
+        bc.skip_read_bytes(skip_size);
     }
 
     return SUCCESS;
-- 
2.43.0


From d44fa909ee89e02c3c7a5248a440debb4ffaa6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:51 +0000
Subject: [PATCH 07/87] fix: compare ADTS headers instead of assigning

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From 995e09363cd88b735b094201f04f7528af206fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:26 +0000
Subject: [PATCH 08/87] fix: check the ADTS frame length against the data

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..f77a6fd 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -173,6 +173,12 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
         int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || bc.acquire(buf_size) != SUCCESS) {
+            sp_error("aac frame length %d not in buffer, left %lu",
+                     tmp_header.aac_frame_length, bc.size());
+            return ERROR_AAC_DECODER;
+        }
+
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From 2cbcf9582bc94fd7d1f3ba0d5fccd04933fb9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:18 +0000
Subject: [PATCH 09/87] fix: skip pointer_field bytes before a PSI section

---
 src/avformat/sps_avformat_ts.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..21f528e 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -71,6 +71,14 @@ error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
 
     if (pkt->payload_unit_start_indicator) {
         pointer_field = rd.read_int8();
+
+        // the section starts pointer_field bytes later, 8 bytes section header
+        if ((ret = rd.acquire(pointer_field + 8)) != SUCCESS) {
+            sp_error("no enough size pointer_field %d ret %d",
+                     pointer_field, ret);
+            return ret;
+        }
+        rd.skip_read_bytes(pointer_field);
     }
 
     // section header
-- 
2.43.0


From 4f0129a8b1d5627b43c7e899297eb3b62556176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:24 +0000
Subject: [PATCH 10/87] fix: a PAT entry with program number 0 is not a program
 map

---
 src/avformat/sps_avformat_ts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 21f528e..4466646 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -153,6 +153,10 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     }
 
     for (auto& pmt : pmt_infos) {
+        if (pmt.program_number == 0) {
+            // network information table, not a program map
+            continue;
+        }
         sp_debug("pmt pid %d", pmt.program_map_pid);
         ctx->add_program(pmt.program_map_pid, std::make_shared<TsPmtProgram>(
                 (int) pmt.program_map_pid, ctx
-- 
2.43.0


From d40cdbe7a698a23de40007de212662386c397a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:08 +0000
Subject: [PATCH 11/87] fix: hand the H.264 parser the PES payload size

---
 src/avformat/sps_avformat_tsdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..e2c06b5 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 9a9efffbdbcc46ba43ae513e178d2d21a6faac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 12/87] fix: RTP header extension length is in 32-bit words

---
 src/avformat/sps_avformat_rtp.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..858da92 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // length counts 32-bit words
+    uint32_t nbytes = extension_info.length * 4;
+
+    if ((ret = bc.acquire(nbytes)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
-                 extension_info.length);
+                 nbytes);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(nbytes);
+    bc.read_bytes(extension_info.header_extension.get(), nbytes);
 
     return ret;
 }
-- 
2.43.0


From 79737521d68f6ffd7e4cfb51f06100ece1c11cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 13/87] fix: strip RTP padding from the payload

---
 src/avformat/sps_avformat_rtpdec.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..e249767 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -55,6 +55,17 @@ error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkt
         return ERROR_RTP_PAYLOAD_TYPE;
     }
 
+    if (rtp_header.fix_header.padding) {
+        // the last byte counts the padding bytes, itself included
+        size_t left = bc.size();
+        size_t pad  = left > 0 ? buffer[size - 1] : 0;
+        if (pad == 0 || pad > left) {
+            sp_error("[rtp] invalid padding %lu, left %lu", pad, left);
+            return ERROR_RTP_PROBE;
+        }
+        bc.init(bc.pos(), left - pad);
+    }
+
     return decode(rtp_header, bc, pkts);
 }
 
-- 
2.43.0


From 0f426edcaf27bf9af8298642df597f92eb346e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 14/87] fix: init_codec(AAC) fell through to 'not found codec'

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index e249767..7ec6060 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -88,6 +88,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From 93da38892b5e0018252346bde3bc47d4d2e8e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 15/87] fix: an 8-byte RTCP packet swallowed the next datagram

---
 src/avformat/sps_avformat_rtpdec.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 7ec6060..949184f 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -123,14 +123,19 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             return ret;
         }
 
-        RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        // one datagram; a short one (rtcp has no 12 byte minimum) is not completed by the next
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        if (len < 4) {
+            sp_error("[rtp] packet too short %lu", len);
+            return ERROR_RTP_PROBE;
+        }
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-- 
2.43.0


From 309b4bbd80584a7e5477b5e3a4a94136b2743fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:04 +0000
Subject: [PATCH 16/87] fix: split RTP aggregation packets into their NAL units

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..5328f9d 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,23 +90,30 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
+    bc.skip_read_bytes(1);  // stap nal header
+
     if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
+        bc.skip_read_bytes(2);  // don
     }
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+        int size = bc.read_int16();
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
@@ -118,18 +125,16 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
-    }
+    bc.skip_read_bytes(1 + 2);  // mtap nal header + donb decoding order number base
 
     while (bc.size() > 0) {
         //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
+        int nalu_size = bc.read_int16();
         auto nalu_dond = bc.read_int8();
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
@@ -138,11 +143,13 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), nalu_size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(nalu_size);
     }
     return ret;
 }
-- 
2.43.0


From 2ff3bb9bc95984512c21691a5163f188cd03dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:04 +0000
Subject: [PATCH 17/87] fix: a lost or oversized RTP fragment stopped H.264
 reception for good

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 5328f9d..4b371ce 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -175,16 +175,8 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
         if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
+            // its last fragment was lost
+            sp_warn("[rtp@h264] fu-decode drop incomplete nalu size %u", pkt->size());
         }
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
@@ -201,6 +193,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] fu-decode nalu too large %u + %lu", pkt->size(), bc.size());
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
@@ -213,13 +211,13 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         BitContext nbc(pkt->buffer(), pkt->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
+        // free the pkt
+        pkt.reset();
+
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
-- 
2.43.0


From 0dea4e03fea8f26f2ac50433fb88b231c7865376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:41 +0000
Subject: [PATCH 18/87] fix: RTCP report blocks start with the SSRC they are
 about

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..7a08e83 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From bf04b4bc31e860d563f9e7d5cd23d16fcec2a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:41 +0000
Subject: [PATCH 19/87] fix: RTCP SDES chunks were decoded through list::end()

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 45 ++++++++++++++++-------
 src/avformat/sps_avformat_rtpdec_rtcp.hpp |  6 +--
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 7a08e83..473e66d 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -129,36 +129,55 @@ std::string RtcpRRDecoder::debug() {
 }
 
 error_t RtcpSDES::decode(BitContext &bc) {
-    error_t ret = bc.acquire(6);
+    error_t ret  = bc.acquire(4);
+    size_t  left = bc.size();
 
     if (ret != SUCCESS) {
         return ret;
     }
 
     ssrc = bc.read_int32();
-    item_type = bc.read_int8();
-    item_length = bc.read_int8();
 
-    if ((ret = bc.acquire(item_length)) != SUCCESS) {
-        return ret;
-    }
+    // items up to a null type, then null bytes up to the next 32-bit boundary; keep the first item
+    while (true) {
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            return ret;
+        }
 
-    item_value = CharBuffer::create_buf(item_length);
-    item_value->append(bc.pos(), item_length);
-    bc.skip_read_bytes(item_length);
+        uint8_t type = bc.read_int8();
+        if (type == 0) {
+            break;
+        }
+
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            return ret;
+        }
+
+        uint8_t length = bc.read_int8();
+        if ((ret = bc.acquire(length)) != SUCCESS) {
+            return ret;
+        }
+
+        if (!item_value) {
+            item_type   = type;
+            item_length = length;
+            item_value  = CharBuffer::create_buf(length);
+            item_value->append(bc.pos(), length);
+        }
+        bc.skip_read_bytes(length);
+    }
 
+    bc.skip_read_bytes((4 - (left - bc.size()) % 4) % 4);
     return ret;
 }
 
 error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
-    static RtcpSDES sd;
     error_t ret = SUCCESS;
 
     for (int i = 0; i < h.cflag; ++i) {
-        sdes.push_back(sd);
-        auto it = sdes.end();
+        sdes.push_back(RtcpSDES());
 
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = sdes.back().decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 1ec72c3..329ea30 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -97,9 +97,9 @@ class RtcpSDES {
     RtcpSDES() = default;
     error_t decode(BitContext& bc);
  public:
-    uint32_t ssrc;
-    uint8_t  item_type;
-    uint8_t  item_length;
+    uint32_t ssrc        = 0;
+    uint8_t  item_type   = 0;
+    uint8_t  item_length = 0;
     PCharBuffer item_value;
 };
 
-- 
2.43.0


From 8c3cb1e1446b93c92273052ab4c8b42815341002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 20/87] fix: an empty NAL unit was read for its error message

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 9854fb9..dea918e 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -372,7 +372,7 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = nalus.append(in_buf, in_size);
 
     if (ret != SUCCESS) {
-        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret, in_buf[0]);
+        sp_error("[h264] append nalu fail ret %d nalu size %d", ret, in_size);
         return ret;
     }
 
-- 
2.43.0


From a7af933bbc3552a6bb7fb75ccf9a26b5b69f7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 21/87] fix: order subscribers by owner, not by the pointer of
 a live object

---
 src/sys/sps_sys_sync.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/sys/sps_sys_sync.hpp b/src/sys/sps_sys_sync.hpp
index 88ad2cf..294a409 100644
--- a/src/sys/sps_sys_sync.hpp
+++ b/src/sys/sps_sys_sync.hpp
@@ -89,17 +89,6 @@ class Subscriber {
     PCondition cond;
 };
 
-template <class T>
-struct WeakPtrLessThan {
-    bool operator()(const std::weak_ptr<T>& lhs,
-                   const std::weak_ptr<T>& rhs) const {
-        auto lptr = lhs.lock(), rptr = rhs.lock();
-        if (!rptr) return false;  // nothing after expired pointer
-        if (!lptr) return true;   // every not expired after expired pointer
-        return lptr.get() < rptr.get();
-    }
-};
-
 template <class T>
 class Publisher {
  public:
@@ -127,8 +116,9 @@ class Publisher {
     }
 
  private:
+    // by owner: the order must not change when a subscriber expires
     std::set<std::weak_ptr<Subscriber<T>>,
-            WeakPtrLessThan<Subscriber<T>> > subs;
+            std::owner_less<std::weak_ptr<Subscriber<T>>> > subs;
 };
 
 }  // namespace sps
-- 
2.43.0


From 710f8d7a8d0fc50b07ab30bc737091bcde8a6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 22/87] fix: the raw TS cache never saw a payload unit start

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..9c0dac1 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index e2c06b5..c9edff0 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{ts_type | (payload_unit_start_indicator ? (int) 0x80000000 : 0)},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From aee391ca26a69005df9498bfe5bd10e0abb7cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 23/87] fix: a coroutine whose handler was dropped before it
 ran read freed memory

---
 src/sys/st/sps_sys_st_co.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sys/st/sps_sys_st_co.cpp b/src/sys/st/sps_sys_st_co.cpp
index 8bfe8f7..6361979 100644
--- a/src/sys/st/sps_sys_st_co.cpp
+++ b/src/sys/st/sps_sys_st_co.cpp
@@ -53,16 +53,19 @@ STCo::STCo(PWICoHandler h) {
 }
 
 error_t STCo::start() {
-    if ((trd = (st_thread_t) st_thread_create(main_co, this,
+    // owned by the coroutine: this object may be gone before it first runs
+    auto wh = new PWICoHandler(h);
+    if ((trd = (st_thread_t) st_thread_create(main_co, wh,
             0, 0)) == nullptr) {
+        delete wh;
         return ERROR_CO_CREATE;
     }
     return SUCCESS;
 }
 
 void* STCo::main_co(void* co) {
-    auto p = static_cast<STCo*>(co);
-    auto ph = p->h.lock();
+    std::unique_ptr<PWICoHandler> wh(static_cast<PWICoHandler*>(co));
+    auto ph = wh->lock();
     if (!ph) {
         return nullptr;
     }
@@ -78,7 +81,7 @@ void* STCo::main_co(void* co) {
 #ifndef ST_THREAD_HAS_CONTEXT_ID
     STContext::get_instance().remove_id();
 #endif
-    return p;
+    return nullptr;
 }
 
 error_t STCoFactory::init() {
-- 
2.43.0


From 7859afd98a8ec63c21d711d75816e4f56e235712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 24/87] fix: log messages are data, not a second format string

---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..87436f5 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    ::printf("%s", buf);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From 4797f81f5e77fff3b729b1ed19a243d3b60e390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 25/87] fix: an HTTP head ends at CRLFCRLF only

---
 src/module/http/sps_http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..87a013e 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -163,7 +163,7 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
                 state = 4;
             }
 
-            if (*(p-2) != '\n' && *(p-3) != '\r')  {
+            if (*(p-1) != '\r' || *(p-2) != '\n' || *(p-3) != '\r')  {
                 state = 2;
             } else {
                 break;
-- 
2.43.0


From 17ed053cfa92a630a6829acec6a902af8d28ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 26/87] fix: refuse a malformed HTTP head

---
 src/module/http/sps_http_parser.cpp | 20 +++++++++++++-------
 src/module/http/sps_http_parser.hpp |  1 +
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 87a013e..96f9b45 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -185,14 +185,17 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
 
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
-    if (parsed == 0) {
-        sp_error("parse execute zero %.*s", len, b);
+    if (HTTP_PARSER_ERRNO(&ctx->http) != HPE_OK || !ctx->head_complete) {
+        sp_error("invalid http head %s %.*s",
+                 http_errno_name(HTTP_PARSER_ERRNO(&ctx->http)), len, b);
+        return -ERROR_HTTP_HEADER_PARSE;
     }
 
-    if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
-        ctx->parse_request();
-    } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
-            && parsed >= 0) {
+    if (ht == HttpType::REQUEST || ht == HttpType::BOTH)  {
+        if (ctx->parse_request() != SUCCESS && ht == HttpType::REQUEST) {
+            return -ERROR_HTTP_HEADER_PARSE;
+        }
+    } else if (ht == HttpType::RESPONSE) {
         ctx->parse_response();
     }
 
@@ -252,7 +255,10 @@ int HttpParser::on_header_value(http_parser* hp, const char *at,
     return SUCCESS;
 }
 
-int HttpParser::on_headers_complete(http_parser* ) {
+int HttpParser::on_headers_complete(http_parser* hp) {
+    auto p = static_cast<HttpParser *>(hp->data);
+
+    p->ctx->head_complete = true;
     return SUCCESS;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..ef61bb3 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -66,6 +66,7 @@ class HttpParserContext {
 
  public:
     http_parser              http;
+    bool                     head_complete = false;
 
     std::list<RequestHeader> headers;
     std::string              url;
-- 
2.43.0


From 4a4d209038f6819fcbe26a60a5d8a5a588b21299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 27/87] fix: match HTTP header names without regard to case

---
 src/io/url/sps_io_url.cpp           | 11 ++++++++---
 src/io/url/sps_io_url.hpp           |  3 +++
 src/io/url/sps_io_url_http.cpp      |  2 +-
 src/module/http/sps_http_parser.cpp |  4 ++--
 src/module/http/sps_http_socket.cpp |  4 ++--
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..19044ec 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_io_url.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sps_log.hpp>
 
@@ -36,6 +37,10 @@ RequestHeader::RequestHeader(const std::string &key, const std::string &value) {
     this->value = value;
 }
 
+bool RequestHeader::is(const std::string& name) const {
+    return strcasecmp(key.c_str(), name.c_str()) == 0;
+}
+
 error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
     req = std::make_shared<RequestUrl>();
     return req->parse_url(url);
@@ -168,14 +173,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (h.is(key)) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (it->is(key)) {
             headers.erase(it);
             return;
         }
@@ -190,7 +195,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int RequestUrl::get_content_length() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..fba4829 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -44,6 +44,9 @@ namespace sps {
 struct RequestHeader {
     RequestHeader();
     explicit RequestHeader(const std::string& key, const std::string& value);
+
+    // header names are case-insensitive
+    bool is(const std::string& name) const;
     std::string key;
     std::string value;
 };
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..7d2763a 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -44,7 +44,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (!h.is("Host"))
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 96f9b45..5214175 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -53,7 +53,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +66,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             (*vs).push_back(h.value);
         }
     }
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..5b8330e 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -188,11 +188,11 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        if (h.is("Content-Length") && content_sent) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (h.is("Server")) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 7188fc19f5b5d3d4185ee54c4d40e7e778352893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 28/87] fix: write one body framing header per HTTP response

---
 src/module/http/sps_http_socket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 5b8330e..35a2ba5 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -188,7 +188,8 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.is("Content-Length") && content_sent) {
+        if ((h.is("Content-Length") && (content_sent || chunked))
+            || (h.is("Transfer-Encoding") && chunked)) {
             continue;
         }
 
-- 
2.43.0


From 2cf0f7e47840a1c58a735cd9deae596c99ff3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 29/87] fix: refuse a malformed chunk length

---
 src/io/url/sps_io_url_http.cpp      | 10 +++++++++-
 src/module/http/sps_http_socket.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 7d2763a..c009c29 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -168,7 +168,15 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (!isxdigit(static_cast<unsigned char>(tmp_buf[0])) || end - tmp_buf > 15
+        || (*end != '\0' && *end != ';' && *end != ' ' && *end != '\t')) {
+        sp_error("invalid http chunked length %s", tmp_buf);
+        nb_chunked_left = nb_chunked_size = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 35a2ba5..d752334 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -118,7 +118,15 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (!isxdigit(static_cast<unsigned char>(tmp_buf[0])) || end - tmp_buf > 15
+        || (*end != '\0' && *end != ';' && *end != ' ' && *end != '\t')) {
+        sp_error("invalid http chunked length %s", tmp_buf);
+        nb_chunked_left = nb_chunked_size = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
-- 
2.43.0


From 537667c888bbc47f7c98c52a1dba9fbc45b083b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 30/87] fix: a message without a body ends at its head

---
 src/io/url/sps_io_url_http.cpp      | 4 +++-
 src/module/http/sps_http_socket.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index c009c29..7e07399 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -89,7 +89,9 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
-    PHttpResponse http_rsp = rsp = parser.get_response();
+    rsp    = parser.get_response();
+    is_eof = url->method == "HEAD" || rsp->status_code == 204 || rsp->status_code == 304
+             || (!rsp->chunked && rsp->content_length == 0);
 
     init(socket, ip, url->get_port(), "", -1);
 
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index d752334..eb274e1 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -40,6 +40,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
+    this->is_eof         = !chunked && cl == 0;
 }
 
 error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
-- 
2.43.0


From 3e347827e3218a60a5fb8239712a21a8cbc3358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:27 +0000
Subject: [PATCH 31/87] fix: 403 and 404 of the stream handler say they have no
 body

---
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..1f7fe96 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,14 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
         return ret;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From 459ef1bb726be08f23eb1b834c0793a8d8423388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:53 +0000
Subject: [PATCH 32/87] fix: do not take an unread request body for the next
 request

---
 src/io/url/sps_io_url.cpp                         | 4 ++++
 src/io/url/sps_io_url.hpp                         | 1 +
 src/module/http/sps_http_phase_handler.cpp        | 5 +++++
 src/module/http/sps_http_stream_phase_handler.cpp | 5 +++--
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 19044ec..e7e2eaf 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -198,6 +198,10 @@ bool RequestUrl::is_chunked() {
     return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
+bool RequestUrl::has_body() {
+    return is_chunked() || get_content_length() > 0;
+}
+
 int RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index fba4829..668bcc0 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -82,6 +82,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
+    bool has_body();
     int  get_content_length();
 
  public:
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..e09dfc1 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,6 +77,11 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
+
+    auto host_ctx = dynamic_cast<HostContext*>(ctx.get_context().get());
+    if (host_ctx && host_ctx->req->has_body()) {
+        return ERROR_HTTP_RSP_NOT_OK;  // an unread body is not the next request
+    }
     return SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
 
diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1f7fe96..b1feb9e 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -55,14 +55,15 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ret;
+        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;  // what follows is the refused stream
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
         rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
                  ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
-        return ret;
+        // an unread body is not the next request
+        return ctx.req->has_body() ? ERROR_HTTP_RSP_NOT_OK : ret;
     }
 
     return ret;
-- 
2.43.0


From 89bd6e3f789a6f8629f6c8fe60ff779460f8233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:14 +0000
Subject: [PATCH 33/87] fix: proxy the body of a request

---
 src/io/url/sps_io_url.hpp                     |  1 +
 src/io/url/sps_io_url_http.cpp                | 27 ++++++++++++++-----
 .../http/sps_http_proxy_phase_handler.cpp     | 25 ++++++++++++++---
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index 668bcc0..c6c12cf 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -101,6 +101,7 @@ class RequestUrl {
     std::string params;
     std::list<RequestParam> pp;
     std::list<RequestHeader> headers;
+    std::string body;
 
  public:
     utime_t tm = 10 * 1000 * 1000;
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 7e07399..f590fdc 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -39,18 +39,31 @@ std::string http_request(const std::string& method, const std::string& url,
                          const std::string& host, const std::string& data,
                          std::list<RequestHeader>* headers) {
     std::stringstream ss;
+    bool              has_accept = false;
+
     ss  << method << " " << url << " HTTP/1.1" << CRCN
         << "Host: " << host << CRCN;
 
     if (headers) {
-        for (auto& h : *headers)
-            if (!h.is("Host"))
-                ss << h.key << ": " << h.value << CRCN;
+        for (auto& h : *headers) {
+            // the body is sent whole, see below
+            if (h.is("Host") || h.is("Content-Length") || h.is("Transfer-Encoding")) {
+                continue;
+            }
+
+            has_accept = has_accept || h.is("Accept");
+            ss << h.key << ": " << h.value << CRCN;
+        }
     }
 
-    ss << "Accept: */" << CRCN;
-    ss << "Content-Length: " << data.size() << CRCN;
-    ss << CRCN;
+    if (!has_accept) {
+        ss << "Accept: */*" << CRCN;
+    }
+
+    if (!data.empty() || (method != "GET" && method != "HEAD")) {
+        ss << "Content-Length: " << data.size() << CRCN;
+    }
+    ss << CRCN << data;
 
     return ss.str();
 }
@@ -70,7 +83,7 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ERROR_HTTP_SOCKET_CONNECT;
     }
 
-    auto req = http_request(url->method, url->url, url->host, "",
+    auto req = http_request(url->method, url->url, url->host, url->body,
                             &url->headers);
 
     if ((ret = socket->write((char*) req.c_str(), req.size())) != SUCCESS) {
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..ee80c76 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -35,6 +35,8 @@ SOFTWARE.
 
 #include <sps_io_url_protocol.hpp>
 
+#define MAX_PROXY_BODY (8 * 1024 * 1024)
+
 namespace sps {
 
 HttpProxyPhaseHandler::HttpProxyPhaseHandler()
@@ -53,6 +55,25 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
                               ctx.req->is_chunked(), ctx.req->get_content_length());
     ctx.host->get_proxy_info(proxy_req->ip, proxy_req->port);
 
+    // the body of the request goes along with it
+    char   buf[1024];
+    int    len  = sizeof(buf);
+    size_t nr   = 0;
+
+    while (ctx.req->has_body() && (ret = sock->read(buf, len, nr)) == SUCCESS) {
+        proxy_req->body.append(buf, nr);
+
+        if (proxy_req->body.size() > MAX_PROXY_BODY) {
+            sp_error("too large request body for proxy %s", proxy_req->url.c_str());
+            return ERROR_MEM_OVERFLOW;
+        }
+    }
+
+    if (ret != SUCCESS && ret != ERROR_HTTP_RES_EOF) {
+        sp_error("Failed read request body %s ret:%d.", proxy_req->url.c_str(), ret);
+        return ret;
+    }
+
     auto     url_protocol  = protocols.create(proxy_req);
     if (!url_protocol) {
         sp_error("not found protocol %s for proxy", proxy_req->schema.c_str());
@@ -77,10 +98,6 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
              http_rsp->headers.size(), http_rsp->content_length);
 
-    char   buf[1024];
-    int    len  = sizeof(buf);
-    size_t nr   = 0;
-
     while ((ret = url_protocol->read(buf, len, nr)) == SUCCESS) {
         ret = rsp.write(buf, nr);
         if (ret != SUCCESS) {
-- 
2.43.0


From f7be9e8502eb13e00a4fc3b656e784e957328efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 34/87] fix: survive a failing accept

---
 src/module/server/sps_server.cpp    | 10 ++++++++++
 src/sys/st/io/sps_sys_st_io_tcp.cpp |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..da0a4d6 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -25,6 +25,9 @@ SOFTWARE.
 
 #include <sps_log.hpp>
 #include <sps_sys_st_io_ssl.hpp>
+#include <sps_sys_sync.hpp>
+
+#define ACCEPT_RETRY_INTERVAL (10 * 1000)
 
 namespace sps {
 
@@ -82,6 +85,13 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            // out of descriptors, or the client is gone already
+            SingleInstance<Sleep>::get_instance().usleep(ACCEPT_RETRY_INTERVAL);
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..ac96953 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -356,6 +356,11 @@ PSocket StTcpServerSocket::accept() {
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
 
+    if (!cfd) {
+        sp_error("failed accept port:%d", port);
+        return nullptr;
+    }
+
     std::string cip;
     int         cport = 0;
     addr2string(&addr, cip, cport);
@@ -363,6 +368,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
+        st_tcp_close(cfd);
         return nullptr;
     }
 
-- 
2.43.0


From ebc9078062bd5448044f03c5e64165501e573340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 35/87] fix: an edge that has ended leaves its successor alone

---
 src/module/stream/sps_stream_edge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..cc51e8b 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -92,6 +92,9 @@ error_t StreamEdge::start() {
 }
 
 error_t StreamEdge::stop() {
+    if (!started) {
+        return SUCCESS;  // the key may belong to a newer edge by now
+    }
     started = false;
 
     if (cache) {
@@ -116,7 +119,8 @@ error_t StreamEdge::wait(utime_t timeout) {
 error_t StreamEdgeEnter::wait_edge(const std::string& key) {
     PStreamEdge* task = SingleInstance<StreamEdgeManager>::get_instance().get(key);
     if (task) {
-        return (*task)->wait(10 * 1000 * 1000);
+        PStreamEdge edge = *task;  // it may leave the manager while we wait
+        return edge->wait(10 * 1000 * 1000);
     }
 
     return ERROR_STREAM_EDGE_NOT_START;
-- 
2.43.0


From adb1f0dad614b78db4d8e6a127891942559cdfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 36/87] fix: an edge pull of an unknown format fails instead of
 crashing

---
 src/module/stream/sps_stream_edge.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index cc51e8b..3201c21 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -58,7 +58,7 @@ error_t StreamEdge::handler() {
     }
 
     ret = io->open(url, TCP);
-    if (ret != SUCCESS || !io->response()->success()) {
+    if (ret != SUCCESS || (io->response() && !io->response()->success())) {
         sp_error("Fail Init upstream %s-%s-%s %d %s", url->get_host(), url->get_url(), url->get_params(),
                  ret, io->response() ? io->response()->error().c_str() : "");
         goto fail;
@@ -68,6 +68,13 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
+
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 57d0209bc432b23cc9d0cbb06785f4470834ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:12 +0000
Subject: [PATCH 37/87] fix: read a refused body before answering the next
 request

---
 src/module/http/sps_http_phase_handler.cpp        | 12 +++++++++++-
 src/module/http/sps_http_socket.cpp               | 13 +++++++++++++
 src/module/http/sps_http_socket.hpp               |  3 +++
 src/module/http/sps_http_stream_phase_handler.cpp |  6 ++++--
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index e09dfc1..d61427b 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -28,6 +28,8 @@ SOFTWARE.
 #include <sps_io_url_protocol.hpp>
 #include <memory>
 
+#define MAX_REFUSED_BODY (1024 * 1024)
+
 namespace sps {
 
 HttpParsePhaseHandler::HttpParsePhaseHandler()
@@ -80,7 +82,15 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
 
     auto host_ctx = dynamic_cast<HostContext*>(ctx.get_context().get());
     if (host_ctx && host_ctx->req->has_body()) {
-        return ERROR_HTTP_RSP_NOT_OK;  // an unread body is not the next request
+        // an unread body is not the next request
+        auto& req  = host_ctx->req;
+        auto  body = std::make_shared<HttpRequestSocket>(
+                        socket, req->ip, req->port,
+                        req->is_chunked(), req->get_content_length());
+
+        if ((ret = body->drain(MAX_REFUSED_BODY)) != SUCCESS) {
+            return ret;
+        }
     }
     return SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index eb274e1..f28396c 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -75,6 +75,19 @@ bool HttpRequestSocket::eof() {
     return is_eof;
 }
 
+error_t HttpRequestSocket::drain(size_t max) {
+    error_t ret = SUCCESS;
+    size_t  nr  = 0;
+    char    buf[4096];
+
+    while ((ret = read(buf, sizeof(buf), nr)) == SUCCESS && nr <= max) {
+        max -= nr;
+    }
+
+    return ret == SUCCESS ? ERROR_MEM_OVERFLOW :
+                (ret == ERROR_HTTP_RES_EOF ? SUCCESS : ret);
+}
+
 error_t HttpRequestSocket::read_chunked(void* buf, size_t size, size_t& nread) {
     error_t ret = SUCCESS;
     nread       = 0;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..1ada3ec 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -42,6 +42,9 @@ class HttpRequestSocket : public Socket {
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
     bool    eof();
+    // reads what is left of the body, at most max bytes. Closing a connection
+    // with unread bytes resets it, and the peer loses what was written to it
+    error_t drain(size_t max);
 
  private:
     error_t read_chunked(void* buf, size_t size, size_t& nread);
diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index b1feb9e..26759f4 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -30,6 +30,8 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 #include <sps_stream_handler.hpp>
 
+#define MAX_REFUSED_BODY (1024 * 1024)
+
 namespace sps {
 
 HttpStreamPhaseHandler::HttpStreamPhaseHandler()
@@ -55,7 +57,7 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;  // what follows is the refused stream
+        return sock->drain(MAX_REFUSED_BODY);  // what follows is the refused stream
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
         rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
@@ -63,7 +65,7 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
                  ctx.req->ip.c_str(), ctx.req->port,
                  ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
         // an unread body is not the next request
-        return ctx.req->has_body() ? ERROR_HTTP_RSP_NOT_OK : ret;
+        return ctx.req->has_body() ? sock->drain(MAX_REFUSED_BODY) : ret;
     }
 
     return ret;
-- 
2.43.0


From 7e87a4b5ae2e7164f76d71c660dc9ff785f8c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 38/87] fix: parse file urls

---
 src/io/url/sps_io_url.cpp | 38 +++++++++++++++++++++-----------------
 src/io/url/sps_io_url.hpp |  3 +++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index e7e2eaf..cf5dc4c 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -49,6 +49,15 @@ error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
 error_t RequestUrl::parse_url(const std::string& url) {
     struct http_parser_url u;
 
+    if (url.compare(0, sizeof("file://") - 1, "file://") == 0) {
+        schema    = "file";
+        path      = url.substr(sizeof("file://") - 1);
+        this->url = path;
+        port      = -1;  // ignore it
+        init_ext_method();
+        return SUCCESS;
+    }
+
     if (http_parser_parse_url(url.c_str(), url.size(), 0, &u) != 0) {
         sp_error("parser url failed:%s", url.c_str());
         return -1;
@@ -67,8 +76,6 @@ error_t RequestUrl::parse_url(const std::string& url) {
         port = 443;
     } else if (schema == "rtmp") {
             port = 1935;
-    } else if (schema == "file") {
-        port = 0; // ignore it
     } else {
         sp_warn("not found default port for schema:%s", schema.c_str());
         port = 0;  // unknown port
@@ -113,23 +120,9 @@ error_t RequestUrl::parse_url(const std::string& url) {
         pp.push_back(RequestParam(key, value));
     } while (true);
 
-    auto n = path.rfind(".");
-    if (n != std::string::npos) {
-        ext = path.substr(n+1);
-    }
-
-    if (method.empty()) {
-        method = "GET";
-    }
+    init_ext_method();
 
     this->url = path + (params.empty() ? "" : "?" + params);
-    if (schema == "file") {
-        this->url    = url.substr(sizeof("file://"));
-        this->path   = url;
-        this->params = "";
-        this->port   = -1;
-    }
-
     sp_debug("url:%s -> [%s] [%s:%d] [%s] [%s] [%s] [%s]",
              url.c_str(), schema.c_str(), host.c_str(), port, path.c_str(),
              ext.c_str(), params.c_str(),
@@ -138,6 +131,17 @@ error_t RequestUrl::parse_url(const std::string& url) {
     return SUCCESS;
 }
 
+void RequestUrl::init_ext_method() {
+    auto n = path.rfind('.');
+    if (n != std::string::npos) {
+        ext = path.substr(n+1);
+    }
+
+    if (method.empty()) {
+        method = "GET";
+    }
+}
+
 const char* RequestUrl::get_schema() {
     return schema.c_str();
 }
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index c6c12cf..042bcd5 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -66,6 +66,9 @@ class RequestUrl {
  public:
     error_t parse_url(const std::string& url);
 
+ private:
+    void init_ext_method();
+
  public:
     virtual const char* get_schema();
     virtual const char* get_url();
-- 
2.43.0


From 077211d906bdb443dd5146d776868f9699ad5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 39/87] fix: a dot in a directory name starts no extension

---
 src/io/url/sps_io_url.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index cf5dc4c..95d2d14 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -133,7 +133,8 @@ error_t RequestUrl::parse_url(const std::string& url) {
 
 void RequestUrl::init_ext_method() {
     auto n = path.rfind('.');
-    if (n != std::string::npos) {
+    // a dot in a directory name starts no extension
+    if (n != std::string::npos && path.find('/', n) == std::string::npos) {
         ext = path.substr(n+1);
     }
 
-- 
2.43.0


From 6ef15a6f88ba391f9b5bdc76f1021a4dc9adb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 40/87] fix: a query parameter without value is no part of the
 next name

---
 src/io/url/sps_io_url.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 95d2d14..776ae31 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -26,6 +26,8 @@ SOFTWARE.
 #include <http_parser.h>
 #include <strings.h>
 
+#include <algorithm>
+
 #include <sps_log.hpp>
 
 namespace sps {
@@ -94,31 +96,20 @@ error_t RequestUrl::parse_url(const std::string& url) {
                             u.field_data[UF_QUERY].len);
     }
 
-    auto off_pre = 0;
-
-    do {
-        auto off_key = params.find_first_of('=', off_pre);
-        if (off_key == std::string::npos) break;
+    size_t off_pre = 0;
 
-        std::string key = params.substr(off_pre, off_key - off_pre), value;
-        off_pre         = off_key + 1;
-        auto off_value  = params.find_first_of('&', off_pre);
+    while (off_pre < params.size()) {
+        auto off_end = std::min(params.find('&', off_pre), params.size());
+        auto off_key = params.find('=', off_pre);
 
-        if (off_value == std::string::npos) {
-            value   =  params.substr(off_pre);
-            pp.push_back(RequestHeader(key, value));
-            sp_debug("%lu, &:%u, [%s]=[%s], final:%u", off_key, -1,
-                     key.c_str(), value.c_str(), off_pre);
-            break;
+        // a parameter without value is no part of the next one's name
+        if (off_key < off_end) {
+            pp.push_back(RequestParam(
+                    params.substr(off_pre, off_key - off_pre),
+                    params.substr(off_key + 1, off_end - off_key - 1)));
         }
-
-        value = params.substr(off_pre, off_value - off_pre);
-        off_pre = off_value + 1;
-
-        sp_debug("%lu, &:%lu, [%s]=[%s], final:%u", off_key, off_value,
-                 key.c_str(), value.c_str(), off_pre);
-        pp.push_back(RequestParam(key, value));
-    } while (true);
+        off_pre = off_end + 1;
+    }
 
     init_ext_method();
 
-- 
2.43.0


From d018fa563f4078ef7c7dfc6e73d4b431ed0ae63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 41/87] fix: a comment may say anything

---
 src/module/sps_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..693a187 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -227,6 +227,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             continue;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {
+            lt = COMMENT;  // whatever it says
+            return SUCCESS;
+        }
+
         if (found_end) {
             if (tmp_arg[0] == '#') {
                 break; // ignore #
@@ -261,11 +266,6 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return SUCCESS;
     }
 
-    if (args[0][0] == '#') {
-        lt = COMMENT;
-        return SUCCESS;
-    }
-
     if (!found_end) {  // no end flag
         sp_error("Fatal no end flag %s", line.c_str());
         return ERROR_CONFIG_PARSE_INVALID;
-- 
2.43.0


From 553898108ec369aeadbbb758d4fc50d98f315690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 42/87] fix: keep the name of a block whose brace has no space
 before it

---
 src/module/sps_module.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 693a187..a4d4c13 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -271,8 +271,12 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
-    if (args.size() == 1 && lt == SUBMODULE_END) {
-        return SUCCESS;
+    if (lt == SUBMODULE_END) {
+        if (args.size() == 1 && args[0] == "}") {
+            return SUCCESS;
+        }
+        sp_error("unknown line before end flag %s.", line.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
     }
 
     if (args.size() == 1) {
@@ -294,11 +298,9 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         }
     }
 
-    if (lt != SUBMODULE_START && lt != SUBMODULE_END) {
-        if (*args.rbegin() != ";") {
-            arg += (arg.empty() ? std::string("") : std::string(" ")) +
-                   args.rbegin()->substr(0, args.rbegin()->size() - 1);
-        }
+    if (args.rbegin()->size() > 1) {  // the end flag without space before it
+        arg += (arg.empty() ? std::string("") : std::string(" ")) +
+               args.rbegin()->substr(0, args.rbegin()->size() - 1);
     }
 
     sp_debug("parse line (%s)->(%s) size:%lu", cmd.c_str(),
-- 
2.43.0


From b912320c4a161f5339556887c624a0928e68abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:32 +0000
Subject: [PATCH 43/87] fix: a switch is on when it says on

---
 src/module/sps_module_opt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/sps_module_opt.cpp b/src/module/sps_module_opt.cpp
index 89ad432..d1c18f8 100644
--- a/src/module/sps_module_opt.cpp
+++ b/src/module/sps_module_opt.cpp
@@ -86,7 +86,7 @@ error_t ConfigOption::opt_set(void *obj, const char *val, int len) const {
             sp_debug("set string { %s->%s } success", name, val);
             break;
         case CONF_OPT_TYPE_BOOL: {
-            bool num = memcmp(val, "on", 2) == 0;
+            bool num = strcmp(val, "on") == 0;
             memcpy(dst, (void*) &num, sizeof(num));
 
             sp_debug("------------------bool val %s -> %d-----------",
-- 
2.43.0


From 1d093db496d964a07d76f28e6434ec4ffebc846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:32 +0000
Subject: [PATCH 44/87] fix: type api is not type stream

---
 src/module/host/sps_host_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..c49cc3e 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -92,7 +92,7 @@ bool HostModule::is_streaming() {
 
 bool HostModule::is_api() {
     auto host = static_cast<HostConfCtx*>(conf.get());
-    return string_hostype(host->type) == STREAMING;
+    return string_hostype(host->type) == API;
 }
 
 bool HostModule::support_publish(const std::string& format) {
-- 
2.43.0


From 8b5687de8947db5ec566e3bb455d6356334d5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:32 +0000
Subject: [PATCH 45/87] fix: merging routers keeps the default host

---
 src/module/host/sps_host_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index c49cc3e..feeb27c 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -236,6 +236,10 @@ error_t HostModulesRouter::merge(HostModulesRouter *router) {
         wildcard_hosts[it.first] = it.second;
     }
 
+    if (router->default_host) {
+        default_host = router->default_host;
+    }
+
     return SUCCESS;
 }
 
-- 
2.43.0


From b7c22efef560adc6a0d4f885e83221d5bc0c89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:32 +0000
Subject: [PATCH 46/87] fix: serve the hosts of a second server block on the
 same port

---
 src/module/server/sps_server_module.cpp | 21 +++++++++++++++++++--
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..288f8c2 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -23,6 +23,8 @@ SOFTWARE.
 
 #include <sps_server_module.hpp>
 
+#include <algorithm>
+
 #include <sps_host_global_module.hpp>
 #include <sps_log.hpp>
 
@@ -53,6 +55,7 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+    sm->router = hr;
     return ret;
 }
 
@@ -214,8 +217,22 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        // the global hosts are part of every server
+        if (std::find(host_modules.begin(), host_modules.end(), h)
+                != host_modules.end()) {
+            continue;
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail register host %s ret %d", h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..bea6384 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -113,6 +113,7 @@ class ServerModule : public IModule {
  private:
     PIConnHandlerFactory socket_handler;
     PServer              server;
+    PHostModulesRouter   router;
 };
 
 MODULE_FACTORY(Server)
-- 
2.43.0


From 015bcdcfd2a38c4e5c8a1a94dcf05740631c2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 47/87] fix: end the location options with a terminator

---
 src/module/host/sps_host_loc_module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/host/sps_host_loc_module.hpp b/src/module/host/sps_host_loc_module.hpp
index 3baa0ac..49d45ff 100644
--- a/src/module/host/sps_host_loc_module.hpp
+++ b/src/module/host/sps_host_loc_module.hpp
@@ -39,6 +39,7 @@ struct LocationConfCtx : public HostConfCtx {
 #define OFFSET(x) offsetof(LocationConfCtx, x)
 static const ConfigOption loc_options[] = {
         HOST_OPTIONS,
+        { nullptr }
 };
 #undef OFFSET
 
-- 
2.43.0


From 33d03c389595033c85d5a3dfeaec30551a4c5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 48/87] fix: merge the global hosts into a server once

---
 src/module/server/sps_server_module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index 288f8c2..2426d62 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -119,6 +119,12 @@ error_t ServerModule::merge_global(PIModule& module) {
     }
 
     for (auto& hm : dm->host_modules) {
+        // merged once, however many http blocks there are
+        if (std::find(host_modules.begin(), host_modules.end(), hm)
+                != host_modules.end()) {
+            continue;
+        }
+
         sp_debug("server merge global host %s", hm->module_name.c_str());
         host_modules.push_back(hm);
     }
-- 
2.43.0


From 7e0666502d1e7653caf4004ad9f7f44422065e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 49/87] fix: resolve a pass_proxy that names an upstream

---
 src/module/host/sps_host_module.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index feeb27c..f018701 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -132,8 +132,16 @@ std::string HostModule::ssl_cert_file() {
 }
 
 error_t HostModule::get_proxy_info(std::string& ip, int& port) {
-    auto proxy = upstream_module ? upstream_module->get_server() : pass_proxy();
-    auto n     = proxy.find(':', 0);
+    auto proxy = pass_proxy();
+    auto up    = upstream_module ? upstream_module :
+                 SingleInstance<UpStreamModules>::get_instance().get(proxy);
+
+    // an address, or the name of an upstream
+    if (up) {
+        proxy = up->get_server();
+    }
+
+    auto n = proxy.find(':', 0);
 
     if (n != std::string::npos) {
         ip   = proxy.substr(0, n);
-- 
2.43.0


From ad0b4c691239532df01e4960032299fbe365e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:57 +0000
Subject: [PATCH 50/87] fix: hold a content length in 64 bits

---
 src/io/url/sps_io_url.cpp                        |  4 ++--
 src/io/url/sps_io_url.hpp                        |  2 +-
 src/module/http/sps_http_parser.cpp              |  2 +-
 src/module/http/sps_http_parser.hpp              |  4 ++--
 src/module/http/sps_http_phase_handler.cpp       |  4 ++--
 src/module/http/sps_http_proxy_phase_handler.cpp | 10 ++++++----
 src/module/http/sps_http_socket.cpp              |  4 ++--
 src/module/http/sps_http_socket.hpp              |  8 ++++----
 8 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 776ae31..0c89e32 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -198,13 +198,13 @@ bool RequestUrl::has_body() {
     return is_chunked() || get_content_length() > 0;
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return strtoll(cl.c_str(), nullptr, 10);
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index 042bcd5..83b1576 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -86,7 +86,7 @@ class RequestUrl {
  public:
     bool is_chunked();
     bool has_body();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 5214175..ae6f9db 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -35,7 +35,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index ef61bb3..53e09fc 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -74,7 +74,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index d61427b..23c333f 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -51,10 +51,10 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %lld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
-             req->is_chunked(), req->get_content_length());
+             req->is_chunked(), static_cast<long long>(req->get_content_length()));
 
     return SPS_PHASE_CONTINUE;
 }
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index ee80c76..65e7da5 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -91,12 +91,14 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
-                 http_rsp->headers.size(), http_rsp->content_length, ret);
+        sp_error("write head status: %d, %lu, %lld, %d.", http_rsp->status_code,
+                 http_rsp->headers.size(),
+                 static_cast<long long>(http_rsp->content_length), ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
-             http_rsp->headers.size(), http_rsp->content_length);
+    sp_debug("write head status %d, %lu, %lld.", http_rsp->status_code,
+             http_rsp->headers.size(),
+             static_cast<long long>(http_rsp->content_length));
 
     while ((ret = url_protocol->read(buf, len, nr)) == SUCCESS) {
         ret = rsp.write(buf, nr);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index f28396c..1d51d1c 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -36,7 +36,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -183,7 +183,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 1ada3ec..0e35281 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -53,7 +53,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -66,14 +66,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 561d814d5c1ac9f35bd0c8a3037ae79d8d0c61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 51/87] fix: read a TLS buffer in order when it takes several
 reads

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..891bc2d 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -399,7 +399,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((char*) buf + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From ce659683ecedd98d09a1a9c60ede375f32be9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:37 +0000
Subject: [PATCH 52/87] fix: do the TLS handshake in a coroutine per client,
 with a timeout

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 40 ++++++++++++++++++++++++-----
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 17 +++++++++++-
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 891bc2d..d38088a 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -30,6 +30,9 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#define ACCEPT_RETRY_INTERVAL (10 * 1000)
+#define SSL_HANDSHAKE_TIMEOUT (10 * 1000 * 1000)
+
 namespace sps {
 
 error_t st_tcp_ssl_connect(const std::string& server, int port,
@@ -545,22 +548,45 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
-        auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
+        if (!sock) {
+            // out of descriptors, or the client is gone already
+            SingleInstance<Sleep>::get_instance().usleep(ACCEPT_RETRY_INTERVAL);
             continue;
         }
 
-        ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port()));
-
+        // a client which is slow or silent must not keep the others waiting
+        ret = ICoFactory::get_instance().start(
+                std::make_shared<StSSLHandshake>(ssl, sock));
+        if (ret != SUCCESS) {
+            sp_error("fail start ssl handshake ret %d", ret);
+        }
     } while (true);
 
     return SUCCESS;
 }
 
+StSSLHandshake::StSSLHandshake(StSSLServerSocket &ssl, PSocket sock) : ssl(ssl) {
+    this->sock = std::move(sock);
+}
+
+error_t StSSLHandshake::handler() {
+    error_t ret      = SUCCESS;
+    auto    ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+
+    sock->set_recv_timeout(SSL_HANDSHAKE_TIMEOUT);
+    sock->set_send_timeout(SSL_HANDSHAKE_TIMEOUT);
+
+    if ((ret = ssl_sock->init()) != SUCCESS) {
+        sp_error("ssl accept ret %d", ret);
+        return ret;
+    }
+
+    ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
+            sock->get_peer_port()));
+    return ret;
+}
+
 }
 
 #endif
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..87f106d 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -122,12 +122,14 @@ class StSSLSocket : public IReaderWriter {
 };
 
 class StSSLAcceptor;
+class StSSLHandshake;
 /**
  * ssl server wrapped
  */
 class StSSLServerSocket : public IServerSocket {
  public:
     friend class StSSLAcceptor;
+    friend class StSSLHandshake;
  public:
     StSSLServerSocket(PIServerSocket ssock);
 
@@ -150,7 +152,7 @@ class StSSLServerSocket : public IServerSocket {
     PISSLCertSearch                 cert_searcher;
 };
 
-// do tls handshake with async no blocking
+// accepts, and leaves the tls handshake to a coroutine per client
 class StSSLAcceptor : public ICoHandler {
  public:
     StSSLAcceptor(StSSLServerSocket& ssl);
@@ -162,6 +164,19 @@ class StSSLAcceptor : public ICoHandler {
     StSSLServerSocket& ssl;
 };
 
+// the tls handshake with one client
+class StSSLHandshake : public ICoHandler {
+ public:
+    StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
+
+ public:
+    error_t handler() override;
+
+ private:
+    StSSLServerSocket& ssl;
+    PSocket            sock;
+};
+
 }  // namespace sps
 
 #endif
-- 
2.43.0


From 67a87b6cbaf861bd119ccecfd3522399c59b15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 53/87] fix: offer the certificate of the server to clients
 which name no host with its own

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index d38088a..b167860 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -208,11 +208,13 @@ error_t StSSLSocket::accept() {
     SSL_set_accept_state(ssl);
     SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
 
-    // TODO: imp sni
     if (cert_searcher) {
         SSL_CTX_set_tlsext_servername_callback(ctx, StSSLSocket::ssl_servername_callback);
-    } else {
-        if ((ret = do_ssl_verify(config)) != SUCCESS) {
+    }
+
+    // the certificate of the server, for clients which name no host with its own
+    if (!cert_searcher || !config.crt_file.empty()) {
+        if ((ret = do_ssl_verify(config)) != SUCCESS && !cert_searcher) {
             return ret;
         }
     }
-- 
2.43.0


From 523befb13dc1ba600525fec3b0cade1865045e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 54/87] fix: send datagrams to the address of the peer

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 923 ++++++++++++++--------------
 1 file changed, 462 insertions(+), 461 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..4464bf3 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,462 +1,463 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
-    }
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = 0;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    auto addr = peer_ip.empty() ? peer_ip : dns_resolve(peer_ip);
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_addr.s_addr   =   addr.empty() ? htonl(INADDR_ANY) : inet_addr(addr.c_str());
+    peer_addr.sin_port          =   htons(peer_port);
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+    }
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = 0;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From 8740674d559e8075d432babf116d519fd9af0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:58 +0000
Subject: [PATCH 55/87] fix: tell UDP sessions apart by the address of the peer

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 4464bf3..8d742a7 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -228,9 +228,15 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         // pi->ipi_spec_dst is the destination in_addr
         // pi->ipi_addr is the receiving interface in_addr
 
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+        struct sockaddr_in dst_addr{};
+        dst_addr.sin_family = AF_INET;
+        dst_addr.sin_addr   = pi->ipi_addr;
+        dst_addr.sin_port   = htons(dst_port);  // not part of the header
+        addr2string(&dst_addr, dst_ip, dst_port);
     }
 
+    addr2string(&from_addr, peer_ip, peer_port);
+
     nread = n;
     return SUCCESS;
 }
@@ -405,7 +411,7 @@ error_t StUdpServerSocket::handler() {
         std::string peer_ip;
         int         peer_port = 0;
         std::string self_ip;
-        int         self_port = 0;
+        int         self_port = port;
         bool        new_client = false;
 
         error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-- 
2.43.0


From 09bbdc56b88e3870199a9c178b22b433efd4363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 56/87] fix: receive the largest datagram whole

---
 src/sys/st/io/sps_sys_st_io_udp.hpp | 408 ++++++++++++++--------------
 1 file changed, 204 insertions(+), 204 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.hpp b/src/sys/st/io/sps_sys_st_io_udp.hpp
index 9bb622b..bad5d5b 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.hpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.hpp
@@ -1,204 +1,204 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-#ifndef SPS_SYS_ST_IO_UDP_HPP
-#define SPS_SYS_ST_IO_UDP_HPP
-
-#include <sps_io_socket.hpp>
-#include <sps_sys_co.hpp>
-#include <sps_sys_sync.hpp>
-#include <sps_sys_st_io_tcp.hpp>
-#include <arpa/inet.h>
-#include <netinet/in.h>
-#include <netdb.h>
-#include <sys/socket.h>
-
-namespace sps {
-
-class UdpFd;
-typedef std::shared_ptr<UdpFd> PUdpFd;
-class UdpFd {
- public:
-    static error_t create_fd(PUdpFd& fd);
-    static error_t create_fd(int bind_port, PUdpFd& fd,
-                             bool reuse_addr = false,
-                             bool reuse_port = false);
-
- public:
-    explicit UdpFd(st_netfd_t udp_fd);
-    ~UdpFd();
-
-    st_netfd_t get_fd();
-
- private:
-    st_netfd_t udp_fd;
-};
-
-class StUdpClientSocket : public IReaderWriter {
- public:
-    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
-
- public:
-    // reader
-    void    set_recv_timeout(utime_t tm) override;
-    utime_t get_recv_timeout() override;
-
-    error_t connect();
-    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
-
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
-                 std::string& dst_ip, int& dst_port);
-
- public:
-    // writer
-    void set_send_timeout(utime_t tm) override;
-    utime_t get_send_timeout() override;
-    error_t write(void* buf, size_t size) override;
-
- private:
-    utime_t rtm;
-    utime_t stm;
-    // The recv/send data in bytes
-    int64_t rbytes;
-    int64_t sbytes;
-    // The underlayer st fd.
-    PUdpFd fd;
-
-    // peer address
-    std::string peer_ip;
-    int         peer_port;
-    sockaddr_in peer_addr;
-    bool        connected;
-
-    char control_buf[0x100];
-};
-
-typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
-
-class UdpBuffer {
- public:
-    UdpBuffer(uint8_t* buf, size_t len);
-    ~UdpBuffer();
-
- private:
-    UdpBuffer(const UdpBuffer& buffer);
-
- public:
-    uint8_t* buffer();
-    size_t   size();
-
- private:
-    uint8_t* buf;
-    size_t   len;
-};
-
-typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
-
-/**
- * udp session wrap
- * read from udp server
- * sent by udp fd
- */
-class StUdpSessionClientSocket : public StUdpClientSocket {
- public:
-    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
-    ~StUdpSessionClientSocket() override;
-
- public:
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    error_t push(uint8_t* buf, size_t len);
-
- private:
-    std::list<PUdpBuffer> buffer_lists;
-    PCondition cond;
-    int buffer_max_list_size;
-    int buffer_list_size;
-};
-typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
-
-class IUdpSocketManager;
-class UdpSessionSocket : public Socket {
- public:
-    UdpSessionSocket(IUdpSocketManager* manger);
-    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
-                     const std::string& dip, int dp);
-    ~UdpSessionSocket() override;
-
- private:
-    IUdpSocketManager* manager;
-};
-
-class IUdpSocketManager {
- public:
-    virtual void on_destroy(UdpSessionSocket* session) = 0;
-};
-
-class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
-                          public std::enable_shared_from_this<StUdpServerSocket> {
- public:
-    StUdpServerSocket() = default;
-    ~StUdpServerSocket();
-
- public:
-    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
-    PSocket accept() override;
-    error_t handler() override;
-
- public:
-    void on_destroy(UdpSessionSocket* session) override;
-
- private:
-    std::string generate_key(const std::string& cip, int cport,
-                             const std::string& dip, int dport);
-    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
-                                               std::string& sip, int sport,
-                                               bool &is_new);
-    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
-
- private:
-    bool     running     = false;
-    uint8_t* buffer      = nullptr;
-    int      buffer_size = 4096;
-    std::string ip;
-    int         port;
-    bool        reuse_port;
-    PUdpFd      server_fd;
-    PStUdpClientSocket server_socket;
-
- private:
-    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
-    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
-    PCondition new_cond;
-};
-
-}  // namespace sps
-
-#endif  // SPS_SYS_ST_IO_UDP_HPP
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+#ifndef SPS_SYS_ST_IO_UDP_HPP
+#define SPS_SYS_ST_IO_UDP_HPP
+
+#include <sps_io_socket.hpp>
+#include <sps_sys_co.hpp>
+#include <sps_sys_sync.hpp>
+#include <sps_sys_st_io_tcp.hpp>
+#include <arpa/inet.h>
+#include <netinet/in.h>
+#include <netdb.h>
+#include <sys/socket.h>
+
+namespace sps {
+
+class UdpFd;
+typedef std::shared_ptr<UdpFd> PUdpFd;
+class UdpFd {
+ public:
+    static error_t create_fd(PUdpFd& fd);
+    static error_t create_fd(int bind_port, PUdpFd& fd,
+                             bool reuse_addr = false,
+                             bool reuse_port = false);
+
+ public:
+    explicit UdpFd(st_netfd_t udp_fd);
+    ~UdpFd();
+
+    st_netfd_t get_fd();
+
+ private:
+    st_netfd_t udp_fd;
+};
+
+class StUdpClientSocket : public IReaderWriter {
+ public:
+    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
+
+ public:
+    // reader
+    void    set_recv_timeout(utime_t tm) override;
+    utime_t get_recv_timeout() override;
+
+    error_t connect();
+    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
+
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
+                 std::string& dst_ip, int& dst_port);
+
+ public:
+    // writer
+    void set_send_timeout(utime_t tm) override;
+    utime_t get_send_timeout() override;
+    error_t write(void* buf, size_t size) override;
+
+ private:
+    utime_t rtm;
+    utime_t stm;
+    // The recv/send data in bytes
+    int64_t rbytes;
+    int64_t sbytes;
+    // The underlayer st fd.
+    PUdpFd fd;
+
+    // peer address
+    std::string peer_ip;
+    int         peer_port;
+    sockaddr_in peer_addr;
+    bool        connected;
+
+    char control_buf[0x100];
+};
+
+typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
+
+class UdpBuffer {
+ public:
+    UdpBuffer(uint8_t* buf, size_t len);
+    ~UdpBuffer();
+
+ private:
+    UdpBuffer(const UdpBuffer& buffer);
+
+ public:
+    uint8_t* buffer();
+    size_t   size();
+
+ private:
+    uint8_t* buf;
+    size_t   len;
+};
+
+typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
+
+/**
+ * udp session wrap
+ * read from udp server
+ * sent by udp fd
+ */
+class StUdpSessionClientSocket : public StUdpClientSocket {
+ public:
+    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
+    ~StUdpSessionClientSocket() override;
+
+ public:
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    error_t push(uint8_t* buf, size_t len);
+
+ private:
+    std::list<PUdpBuffer> buffer_lists;
+    PCondition cond;
+    int buffer_max_list_size;
+    int buffer_list_size;
+};
+typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
+
+class IUdpSocketManager;
+class UdpSessionSocket : public Socket {
+ public:
+    UdpSessionSocket(IUdpSocketManager* manger);
+    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
+                     const std::string& dip, int dp);
+    ~UdpSessionSocket() override;
+
+ private:
+    IUdpSocketManager* manager;
+};
+
+class IUdpSocketManager {
+ public:
+    virtual void on_destroy(UdpSessionSocket* session) = 0;
+};
+
+class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
+                          public std::enable_shared_from_this<StUdpServerSocket> {
+ public:
+    StUdpServerSocket() = default;
+    ~StUdpServerSocket();
+
+ public:
+    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
+    PSocket accept() override;
+    error_t handler() override;
+
+ public:
+    void on_destroy(UdpSessionSocket* session) override;
+
+ private:
+    std::string generate_key(const std::string& cip, int cport,
+                             const std::string& dip, int dport);
+    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
+                                               std::string& sip, int sport,
+                                               bool &is_new);
+    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
+
+ private:
+    bool     running     = false;
+    uint8_t* buffer      = nullptr;
+    int      buffer_size = 64 * 1024;  // the largest datagram
+    std::string ip;
+    int         port;
+    bool        reuse_port;
+    PUdpFd      server_fd;
+    PStUdpClientSocket server_socket;
+
+ private:
+    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
+    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
+    PCondition new_cond;
+};
+
+}  // namespace sps
+
+#endif  // SPS_SYS_ST_IO_UDP_HPP
-- 
2.43.0


From 86dfc837345a51670a69ed348015f7f49e95cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 57/87] fix: keep a TLS handshake until it is done

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 11 ++++++++---
 src/sys/st/io/sps_sys_st_io_ssl.hpp |  8 +++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index b167860..4137282 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -558,10 +558,11 @@ error_t StSSLAcceptor::handler() {
         }
 
         // a client which is slow or silent must not keep the others waiting
-        ret = ICoFactory::get_instance().start(
-                std::make_shared<StSSLHandshake>(ssl, sock));
-        if (ret != SUCCESS) {
+        auto handshake = std::make_shared<StSSLHandshake>(ssl, sock);
+        ssl.handshakes.insert(handshake);
+        if ((ret = ICoFactory::get_instance().start(handshake)) != SUCCESS) {
             sp_error("fail start ssl handshake ret %d", ret);
+            ssl.handshakes.erase(handshake);
         }
     } while (true);
 
@@ -589,6 +590,10 @@ error_t StSSLHandshake::handler() {
     return ret;
 }
 
+void StSSLHandshake::on_stop() {
+    ssl.handshakes.erase(shared_from_this());
+}
+
 }
 
 #endif
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 87f106d..3173c65 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -31,6 +31,7 @@ SOFTWARE.
 #include <openssl/ssl.h>
 
 #include <memory>
+#include <set>
 
 #include <sps_sys_co.hpp>
 #include <sps_sys_sync.hpp>
@@ -150,6 +151,8 @@ class StSSLServerSocket : public IServerSocket {
     std::shared_ptr<StSSLAcceptor>  acceptor;
     SSLConfig                       config;
     PISSLCertSearch                 cert_searcher;
+    // running, a coroutine does not own its handler
+    std::set<PICoHandler>           handshakes;
 };
 
 // accepts, and leaves the tls handshake to a coroutine per client
@@ -165,13 +168,16 @@ class StSSLAcceptor : public ICoHandler {
 };
 
 // the tls handshake with one client
-class StSSLHandshake : public ICoHandler {
+class StSSLHandshake : public ICoHandler,
+                       public std::enable_shared_from_this<StSSLHandshake> {
  public:
     StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
 
  public:
     error_t handler() override;
 
+    void on_stop() override;
+
  private:
     StSSLServerSocket& ssl;
     PSocket            sock;
-- 
2.43.0


From 7c2b625f995186f9a9e3f163430b931d589210ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:31 +0000
Subject: [PATCH 58/87] fix: ignore TLS errors of other connections

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ++++++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 4137282..bcffc19 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -349,6 +349,7 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    ERR_clear_error();
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -422,6 +423,9 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
     error_t ret = SUCCESS;
 
     do {
+        // the error queue is shared, an old error of another connection is not ours
+        ERR_clear_error();
+
         // read decode buffer
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
@@ -476,6 +480,8 @@ error_t StSSLSocket::write(void* buf, size_t size) {
     }
 
     do {
+        ERR_clear_error();
+
         // write for encode to wbio
         int n = SSL_write(ssl, (char*)buf + nwrite, size - nwrite);
 
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3173c65..5245474 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include <memory>
-- 
2.43.0


From d536734d702c5402e98c60e0a3f0ac7feaa52833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 59/87] fix: tell a missing AMF property by its type

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index ff78553..7be86cf 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -38,7 +38,7 @@ namespace sps {
 
 
 error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -50,7 +50,7 @@ error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -62,7 +62,7 @@ error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, double *num) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
-- 
2.43.0


From ee206d5f3c64166c6ffd75aba5d4fbd295f55de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 60/87] fix: log a bad AMF message without reading behind it

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 7be86cf..dfeb0bd 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -192,9 +192,9 @@ error_t AmfRtmpPacket::decode(WrapRtmpPacket &pkt) {
 
     if (ret < 0) {
         ret = ERROR_RTMP_AMF_DECODE;
-        sp_error("decode amf failed type: %d,  %.*s, %X, %X",
-                 packet.m_packetType, packet.m_nBodySize, packet.m_body,
-                 *packet.m_body, *(packet.m_body + 1));
+        sp_error("decode amf failed type: %d, size: %u,  %.*s",
+                 packet.m_packetType, packet.m_nBodySize,
+                 (int) packet.m_nBodySize, packet.m_body);
         return ret;
     }
 
-- 
2.43.0


From 52263314ff99df98282bc9d65765b67574df70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 61/87] fix: refuse a connect without an object

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index dfeb0bd..5a20bba 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -45,7 +45,8 @@ error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
     if (prop->p_type != AMF_OBJECT && prop->p_type != AMF_NULL) {
         return ERROR_RTMP_AMF_PROP_TYPE;
     }
-    *obj = &prop->p_vu.p_object;
+    // null has no object
+    *obj = prop->p_type == AMF_OBJECT ? &prop->p_vu.p_object : nullptr;
     return SUCCESS;
 }
 
@@ -334,6 +335,11 @@ error_t ConnectRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ERROR_RTMP_AMF_CMD_CONVERT;
     }
 
+    if (!object) {
+        sp_error("amf connect has no object");
+        return ERROR_RTMP_AMF_CMD_CONVERT;
+    }
+
     if ((ret = get_amf_string(object, "app", &app)) != SUCCESS) {
         sp_error("amf connect has empty app");
         return ret;
-- 
2.43.0


From 0182d93da49b50c30bee14f9a37943d2e3cfbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 62/87] fix: read the type of a publish with five values

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 5a20bba..feb831e 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -407,7 +407,7 @@ error_t PublishRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ret;
     }
 
-    if (amf_object.o_num > 5) {
+    if (amf_object.o_num > 4) {
         AVal stream;
         if ((ret = get_amf_prop(amf_object.o_props + 4,
                 &stream)) != SUCCESS) {
-- 
2.43.0


From 0539584d6c823eae81d8267131e03f06c702bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 63/87] fix: read the last item of an SRT stream id

---
 src/module/srt/sps_srt_server_handler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..9be13b4 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -53,13 +53,18 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
     std::list<RequestParam> params;
 
     RequestParam param;
-    while (p != end) {
-        if (*p == ',') {
+    while (true) {
+        // the last one has no comma behind it
+        if (p == end || *p == ',') {
             param.value = std::string(start, p-start);
             params.push_back(param);
             start = p+1;
 
             param.key = param.value = "";  // clear value
+
+            if (p == end) {
+                break;
+            }
         } else if (*p == '=') {
             param.key = std::string(start, p-start);
             start = p+1;
-- 
2.43.0


From 4550d34c673f7e3d49747b7d9f25f7aa4f81e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 64/87] fix: keep the equal signs in an item of an SRT stream
 id

---
 src/module/srt/sps_srt_server_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 9be13b4..0b8549b 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -65,7 +65,8 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
             if (p == end) {
                 break;
             }
-        } else if (*p == '=') {
+        } else if (*p == '=' && param.key.empty()) {
+            // the value may hold others
             param.key = std::string(start, p-start);
             start = p+1;
         }
-- 
2.43.0


From 6000b39d29fca54dfe829c46d8474893d2a02b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 65/87] fix: recognize the scheme of the url in an SRT stream
 id

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 0b8549b..d87f468 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -83,7 +83,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From 15c0f1b0ec67d13ac1799e03148f206f850757f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 66/87] fix: refuse SRT stream ids of another form

---
 src/module/srt/sps_srt_server_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index d87f468..909ba3f 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -40,6 +40,11 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         return nullptr;
     }
 
+    if (streamid.compare(0, 4, "#!::") != 0) {
+        sp_error("fail parse srt streamid (%s) not #!::", streamid.c_str());
+        return nullptr;
+    }
+
     auto tmp = streamid.substr(4);
     if (tmp.empty()) {
         sp_error("fail parse srt streamid is empty");
-- 
2.43.0


From 7c230f5fdea29fd183578c0f614643eca2d297d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 67/87] fix: tell the port of an SRT peer in host order

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..31a7c4e 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -793,7 +793,7 @@ PSocket StSrtServerSocket::accept() {
         buf[0] = '\0';  // 防止内存写乱
     }
 
-    return std::make_shared<Socket>(srt_socket, std::string(buf), addr.sin_port);
+    return std::make_shared<Socket>(srt_socket, std::string(buf), ntohs(addr.sin_port));
 }
 
 }
-- 
2.43.0


From 1fcc4141fdf9a75e6a2173b3e50327dc796a76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 68/87] fix: return no socket when an SRT accept fails

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 31a7c4e..e034216 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -340,7 +340,7 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
-                return ret;
+                return SRT_INVALID_SOCK;
             }
         } else {
             sp_error("[st_srt_accept] failed, fd:%d, ret:%d, err:%s", fd, ret, err.c_str());
@@ -787,6 +787,12 @@ PSocket StSrtServerSocket::accept() {
 
     SRTSOCKET c_fd = st_srt_accept(server_fd, (struct sockaddr*) &addr,
             &addr_len, ST_UTIME_NO_TIMEOUT);
+
+    if (c_fd == SRT_INVALID_SOCK) {
+        sp_error("fail accept srt fd %d", server_fd);
+        return nullptr;
+    }
+
     auto srt_socket = std::make_shared<StSrtSocket>(c_fd);
 
     if (inet_ntop(addr.sin_family, &addr.sin_addr, buf, sizeof(buf)) == NULL) {
-- 
2.43.0


From d29751dba19ef41624402ba71e4bd9eb8392685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 69/87] fix: keep what StSrtSocket::read_fully has read so far

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index e034216..ed067e7 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -689,7 +689,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read(reinterpret_cast<char*>(buf) + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From a01b631e7cd63a50c965e43d1fd959505d9c7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 70/87] fix: read what an SRT peer sent before it closed

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index ed067e7..ec70306 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -353,12 +353,16 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
 error_t st_srt_read(SRTSOCKET fd, void *buf, size_t nbyte, utime_t timeout, size_t& nread) {
     std::string err;
     int ret = SUCCESS;
+    bool broken = false;
 
     while ((ret = srt_recv(fd, reinterpret_cast<char*>(buf), nbyte)) == SRT_ERROR) {
         int eno = 0;
-        if (st_srt_again(eno)) {
+        if (!broken && st_srt_again(eno)) {
             ret = st_srt_epoll(fd, ST_SRT_IN, timeout, err);
-            if (ret != SUCCESS) {
+
+            // what came before the connection broke is still to be read
+            broken = ret == ERROR_SRT_SOCKET_BROKEN;
+            if (ret != SUCCESS && !broken) {
                 sp_error("[st_srt_read]: srt read epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
                 return ret;
-- 
2.43.0


From 8597656cb765ebcb2a24fc8ce6daf7a06f9f83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 71/87] fix: notice an SRT connection that breaks before it is
 waited for

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index ec70306..3fd98a7 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -554,6 +554,15 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
         }
     }
 
+    // srt sends no event for what broke before it was added
+    auto status = srt_getsockstate(fd);
+    if (status >= SRTS_BROKEN) {
+        if (add) {
+            UDT::epoll_remove_usock(srt_eid, fd);
+        }
+        return st_srt_socket_error(status);
+    }
+
     // st wait util timeout or notify
     auto cnd = std::make_shared<SrtEventCondition>(event);
     conditions[fd].insert(cnd);
-- 
2.43.0


From 3ce7180571ef5493eb95b969eb7c8e07821993a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 72/87] fix: accept an SRT connection that comes before it is
 waited for

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 3fd98a7..3612774 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef SRT_ENABLED
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <srtcore/udt.h>
@@ -38,6 +39,9 @@ namespace sps {
 
 static StSrtMode default_srt_mode = ST_SRT_MODE_LIVE;
 
+// us
+static const utime_t ST_SRT_ACCEPT_INTERVAL = 100 * 1000;
+
 int st_srt_epoll(SRTSOCKET fd, StSrtEvent evt, utime_t tm, std::string& err) {
     int ret = SrtStDispatch::get_instance()->st_srt_epoll(fd, evt, tm, err);
 
@@ -335,7 +339,18 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
         int eno = 0;
 
         if (st_srt_again(eno)) {
-            ret = st_srt_epoll(fd, ST_SRT_ACCEPT, timeout, err);
+            // srt sends no event for what came before the fd was added, look
+            // again from time to time
+            utime_t wait = std::min(timeout, ST_SRT_ACCEPT_INTERVAL);
+            ret = SrtStDispatch::get_instance()->st_srt_epoll(
+                    fd, ST_SRT_ACCEPT, wait, err);
+
+            if (ret == ERROR_SRT_SOCKET_TIMEOUT && wait < timeout) {
+                if (timeout != ST_UTIME_NO_TIMEOUT) {
+                    timeout -= wait;
+                }
+                continue;
+            }
 
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
-- 
2.43.0


From b8192888013353f9e127703c06dc19e89db25bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:40 +0000
Subject: [PATCH 73/87] fix: tell a broken SRT connection from one being made

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 3612774..7ad88de 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -570,12 +570,14 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
     }
 
     // srt sends no event for what broke before it was added
-    auto status = srt_getsockstate(fd);
-    if (status >= SRTS_BROKEN) {
+    int32_t now = 0;
+    int     len = sizeof(now);
+    if (srt_getsockflag(fd, SRTO_EVENT, &now, &len) == SRT_ERROR
+            || (now & ST_SRT_ERR)) {
         if (add) {
             UDT::epoll_remove_usock(srt_eid, fd);
         }
-        return st_srt_socket_error(status);
+        return st_srt_socket_error(srt_getsockstate(fd));
     }
 
     // st wait util timeout or notify
-- 
2.43.0


From 0b7d5f63b115ef029f9c2101f84af3d79e2cfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:35 +0000
Subject: [PATCH 74/87] fix: forget an SRT descriptor nobody waits for

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 7ad88de..0c187d5 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -585,8 +585,13 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
     conditions[fd].insert(cnd);
     ret = st_cond_timedwait(cnd->cond, timeout);
 
-    if (conditions.count(fd))
-        conditions[fd].erase(cnd);
+    auto waiting = conditions.find(fd);
+    if (waiting != conditions.end()) {
+        waiting->second.erase(cnd);
+        if (waiting->second.empty()) {
+            conditions.erase(waiting);
+        }
+    }
 
     int old_evt = get_exits_evt(fd);
 
-- 
2.43.0


From 116a8ec9c7c91133a6c6cf52381f8d926611a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 75/87] fix: recognize an RTP payload type that comes with the
 marker set

---
 src/avformat/sps_avformat_rtpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 949184f..bce19d1 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -144,7 +144,7 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From e5c3d18ac6ddece9bd9dcd500f20a3321aa739d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 76/87] fix: leave static singletons to their own destruction

---
 src/util/sps_util_typedef.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/sps_util_typedef.hpp b/src/util/sps_util_typedef.hpp
index 2f3c8a9..76710ec 100644
--- a/src/util/sps_util_typedef.hpp
+++ b/src/util/sps_util_typedef.hpp
@@ -47,7 +47,8 @@ class SingleInstance {
     }
 
     static std::shared_ptr<T> get_instance_share_ptr() {
-        static std::shared_ptr<T> ptr = std::shared_ptr<T>(&get_instance());
+        // the instance is static: the pointer must not delete it
+        static std::shared_ptr<T> ptr(&get_instance(), [](T*) {});
         return ptr;
     }
 };
-- 
2.43.0


From 672f165827990d28b40f2f7ade6b8624569fde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 77/87] fix: a player may ask an extension that FFmpeg does not
 know

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index a2f588b..d50f099 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -256,8 +256,10 @@ error_t FFmpegAVMuxer::init_ffmpeg_ctx() {
 }
 
 void FFmpegAVMuxer::free_ffmpeg_ctx() {
-    if (pb->buffer) av_free(pb->buffer);
-    if (pb) avio_context_free(&pb);
+    if (pb) {
+        av_freep(&pb->buffer);
+        avio_context_free(&pb);
+    }
     if (ctx) avformat_free_context(ctx);
 }
 
-- 
2.43.0


From 4bff5fd4bfd9bc2356d77626ee39de47ed0a3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 78/87] fix: a packet without usable times does not end the
 server

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index d50f099..4c3f6d0 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -115,11 +115,6 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
                 pkt->get_time_base()->den, pkt->get_time_base()->num,
                 ctx->streams[pkt->packet()->stream_index]->time_base.den,
                 ctx->streams[pkt->packet()->stream_index]->time_base.num);
-
-        out_pkt.dts = pkt->packet()->dts;
-        out_pkt.pts = pkt->packet()->pts;
-
-        exit(0);
     }
 
     ret = av_write_frame(ctx, &out_pkt);
-- 
2.43.0


From b683b0c0a610ba45995443b850217927c39013a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 79/87] fix: find the output stream of a packet by the stream
 mapping

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 4c3f6d0..9702734 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -104,7 +104,9 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
     out_pkt.dts = pkt->packet()->dts;
     out_pkt.pts = pkt->packet()->pts;
     /* copy packet */
-    av_packet_rescale_ts(&out_pkt, *pkt->get_time_base(), ctx->streams[pkt->packet()->stream_index]->time_base);
+    out_pkt.stream_index = stream_mapping[pkt->packet()->stream_index];
+    auto out_stream      = ctx->streams[out_pkt.stream_index];
+    av_packet_rescale_ts(&out_pkt, *pkt->get_time_base(), out_stream->time_base);
     out_pkt.pos = -1;
 
     // TODO fix rtmp
@@ -113,8 +115,7 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
                 "tb (%d, %d) -> (%d, %d)",
                 out_pkt.dts, out_pkt.pts, pkt->packet()->dts, pkt->packet()->pts,
                 pkt->get_time_base()->den, pkt->get_time_base()->num,
-                ctx->streams[pkt->packet()->stream_index]->time_base.den,
-                ctx->streams[pkt->packet()->stream_index]->time_base.num);
+                out_stream->time_base.den, out_stream->time_base.num);
     }
 
     ret = av_write_frame(ctx, &out_pkt);
@@ -210,7 +211,7 @@ error_t FFmpegAVMuxer::on_av_stream(AVStream* stream) {
     }
 
     out_stream->codecpar->codec_tag = 0;
-    stream_mapping.push_back(stream_mapping.size());
+    stream_mapping.push_back(out_stream->index);
     sp_trace("Success new stream %d->%d codec %d(%d)", stream->index, out_stream->index,
              stream->codecpar->codec_type, stream->codecpar->codec_id);
 
-- 
2.43.0


From 9ed02406453a715f9a4fbd963eeb3f4b2b428c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 80/87] fix: refuse FFmpeg formats that write to places of
 their own

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 9702734..b820a50 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -170,6 +170,12 @@ error_t FFmpegAVMuxer::init() {
         return ERROR_FFMPEG_OPEN;
     }
 
+    // hls, dash, image2...: would open files or connections of their own
+    if (out_format->flags & AVFMT_NOFILE) {
+        sp_error("Fail init ffmpeg format %s writes files", out_format->name);
+        return ERROR_FFMPEG_OPEN;
+    }
+
     auto avio_buffer = (uint8_t*) av_malloc(FFMPEG_MAX_SIZE);
     pb               = avio_alloc_context(avio_buffer, FFMPEG_MAX_SIZE, 1,
                                           this, nullptr, write_data, nullptr);
-- 
2.43.0


From 9631ba0b21ffd16e59f09d45424c2e2f9eac08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 81/87] fix: close the FFmpeg input when a publisher leaves

---
 src/avformat/sps_avformat_ffmpeg_dec.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_dec.cpp b/src/avformat/sps_avformat_ffmpeg_dec.cpp
index ac2f90a..05353b1 100644
--- a/src/avformat/sps_avformat_ffmpeg_dec.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_dec.cpp
@@ -183,9 +183,12 @@ error_t FFmpegAVDemuxer::init_ffmpeg_ctx() {
 void FFmpegAVDemuxer::free_ffmpeg_ctx() {
     // https://ffmpeg.org/pipermail/libav-user/2012-December/003257.html
     // avio_ctx_buffer manage by pb
-    if (pb->buffer) av_freep(&pb->buffer);
-    if (pb) avio_context_free(&pb);
-    if (ctx) avformat_free_context(ctx);
+    // close gives back what the demuxer of the container allocated; pb is ours (custom io)
+    if (ctx) avformat_close_input(&ctx);
+    if (pb) {
+        av_freep(&pb->buffer);
+        avio_context_free(&pb);
+    }
 }
 
 FFmpegAVInputFormat::FFmpegAVInputFormat() : IAVInputFormat("ffmpeg", ".*") {
-- 
2.43.0


From 93df137eff52d35ba134274c841a53f1fa041d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 82/87] fix: write the end of a container when its stream ends

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 7 +++++++
 src/avformat/sps_avformat_ffmpeg_enc.hpp | 1 +
 src/module/stream/sps_stream.cpp         | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index b820a50..6aa17d5 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -80,6 +80,7 @@ error_t FFmpegAVMuxer::write_header(PAVPacket &buffer) {
         sp_error("fail write header %d, url %s", ret, url->get_url());
         return ERROR_FFMPEG_WRITE;
     }
+    wrote_header = true;
     return SUCCESS;
 }
 
@@ -129,6 +130,12 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
 }
 
 error_t FFmpegAVMuxer::write_tail(PAVPacket &buffer) {
+    // mpegts and matroska hold packets back until here
+    if (wrote_header && av_write_trailer(ctx) < 0) {
+        sp_error("fail write tail");
+        return ERROR_FFMPEG_WRITE;
+    }
+    wrote_header = false;
     return SUCCESS;
 }
 
diff --git a/src/avformat/sps_avformat_ffmpeg_enc.hpp b/src/avformat/sps_avformat_ffmpeg_enc.hpp
index bc34abc..2794424 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.hpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.hpp
@@ -69,6 +69,7 @@ class FFmpegAVMuxer : public IAVMuxer {
     // ffmpeg timestamp
     int64_t          cur_timestamp;
     std::vector<int> stream_mapping;
+    bool             wrote_header = false;
 
 #ifdef FFMPEG_ENCODE_DEBUG
     PIWriter debug_output;
diff --git a/src/module/stream/sps_stream.cpp b/src/module/stream/sps_stream.cpp
index bb1abd3..b79983f 100644
--- a/src/module/stream/sps_stream.cpp
+++ b/src/module/stream/sps_stream.cpp
@@ -85,6 +85,7 @@ error_t StreamEncoder::encode() {
         if (n == 0) {
             ret = ERROR_SOCKET_TIMEOUT;
             sp_error("Fail timeout ret %d", ret);
+            enc->write_tail(buffer);  // the stream has ended
             break;
         }
 
-- 
2.43.0


From 3cca5189e4be4379729274d636cf9d3aded51cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 83/87] fix: give up an upstream that stalls

---
 src/io/url/sps_io_url_http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index f590fdc..6c3aaa3 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -83,6 +83,10 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ERROR_HTTP_SOCKET_CONNECT;
     }
 
+    // a server which stalls must not be waited for without end
+    socket->set_send_timeout(url->get_timeout());
+    socket->set_recv_timeout(url->get_timeout());
+
     auto req = http_request(url->method, url->url, url->host, url->body,
                             &url->headers);
 
-- 
2.43.0


From b5b24d062f5ba3995556015149b15d58afef2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:55 +0000
Subject: [PATCH 84/87] fix: listen for every transport of a port

---
 src/module/server/sps_server_module.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index 2426d62..0981a14 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -31,7 +31,11 @@ SOFTWARE.
 namespace sps {
 
 bool ServerCompare::operator()(const ServerConfCtx& s1, const ServerConfCtx& s2) const {
-    return s1.listen_port < s2.listen_port;
+    if (s1.listen_port != s2.listen_port) {
+        return s1.listen_port < s2.listen_port;
+    }
+    // srt listens on udp: the same port number is another one
+    return (s1.transport != "srt") < (s2.transport != "srt");
 }
 
 std::map<ServerConfCtx, PServerModule, ServerCompare> ServerModule::server_modules;
@@ -219,6 +223,14 @@ error_t ServerModule::post_install(PHostModulesRouter router) {
 }
 
 error_t ServerModule::merge_server(PServerModule server_module) {
+    auto self  = std::static_pointer_cast<sps::ServerConfCtx>(conf);
+    auto other = std::static_pointer_cast<sps::ServerConfCtx>(server_module->conf);
+
+    if (self->transport != other->transport) {
+        sp_error("listen port: %d, transport %s and %s", self->listen_port,
+                  self->transport.c_str(), other->transport.c_str());
+        return ERROR_CONFIG_INSTALL;
+    }
     return merge_hosts(server_module->host_modules);
 }
 
-- 
2.43.0


From de6fb80ba4f134242c085fc4cde6841f0fb5e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 85/87] fix: refuse an unknown transport

---
 src/module/server/sps_server_module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index 0981a14..005f5e7 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -158,6 +158,12 @@ error_t ServerModule::install() {
         t = Transport::HTTPS;
     }
 #endif
+
+    if (t == Transport::TCP && server_conf->transport != "tcp") {
+        sp_error("unknown transport %s", server_conf->transport.c_str());
+        return ERROR_CONFIG_INSTALL;
+    }
+
     ret = server->init(socket_handler,
             server_conf->send_timeout, server_conf->recv_timeout);
 
-- 
2.43.0


From d5b795c30f0f18ade65dc5019a8efd3c20d539d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:56 +0000
Subject: [PATCH 86/87] fix: write the H.264 decoder configuration record as
 the standard lays it out

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index dea918e..9a41716 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -278,11 +278,11 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         BitContext bc(pkt->buffer(), pkt->cap());
         bc.write_int8(0x01);  // avc version
         bc.write_int8(sps->nalu_buf[1]);  // avc profile
-        bc.write_int8(0x00);  // avc compatibility
+        bc.write_int8(sps->nalu_buf[2]);  // avc compatibility
         bc.write_int8(sps->nalu_buf[3]);  // avc level
-        bc.write_int8(nalu_length_size_minus_one);  // avc level
+        bc.write_int8(0xfc | nalu_length_size_minus_one);  // reserved 111111b + nalu length size
 
-        bc.write_int8(1);  // 1 sps num
+        bc.write_int8(0xe0 | 1);  // reserved 111b + 1 sps num
         bc.write_int16(sps->nalu_size);
         // bc.write_int32(0x01);  // nalu start code 00 00 00 01
         bc.write_bytes(sps->nalu_buf, sps->nalu_size);
-- 
2.43.0


From 47885c5e972bd5e2943b58bf51521e25dc3c3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:56 +0000
Subject: [PATCH 87/87] fix: restore the line endings of the UDP sources,
 changed by mistake in 523befb and 09bbdc5

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 936 ++++++++++++++--------------
 src/sys/st/io/sps_sys_st_io_udp.hpp | 408 ++++++------
 2 files changed, 672 insertions(+), 672 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 8d742a7..493f3be 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,469 +1,469 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    auto addr = peer_ip.empty() ? peer_ip : dns_resolve(peer_ip);
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   addr.empty() ? htonl(INADDR_ANY) : inet_addr(addr.c_str());
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        struct sockaddr_in dst_addr{};
-        dst_addr.sin_family = AF_INET;
-        dst_addr.sin_addr   = pi->ipi_addr;
-        dst_addr.sin_port   = htons(dst_port);  // not part of the header
-        addr2string(&dst_addr, dst_ip, dst_port);
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = port;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    auto addr = peer_ip.empty() ? peer_ip : dns_resolve(peer_ip);
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_addr.s_addr   =   addr.empty() ? htonl(INADDR_ANY) : inet_addr(addr.c_str());
+    peer_addr.sin_port          =   htons(peer_port);
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        struct sockaddr_in dst_addr{};
+        dst_addr.sin_family = AF_INET;
+        dst_addr.sin_addr   = pi->ipi_addr;
+        dst_addr.sin_port   = htons(dst_port);  // not part of the header
+        addr2string(&dst_addr, dst_ip, dst_port);
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = port;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
diff --git a/src/sys/st/io/sps_sys_st_io_udp.hpp b/src/sys/st/io/sps_sys_st_io_udp.hpp
index bad5d5b..2a0ee74 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.hpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.hpp
@@ -1,204 +1,204 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-#ifndef SPS_SYS_ST_IO_UDP_HPP
-#define SPS_SYS_ST_IO_UDP_HPP
-
-#include <sps_io_socket.hpp>
-#include <sps_sys_co.hpp>
-#include <sps_sys_sync.hpp>
-#include <sps_sys_st_io_tcp.hpp>
-#include <arpa/inet.h>
-#include <netinet/in.h>
-#include <netdb.h>
-#include <sys/socket.h>
-
-namespace sps {
-
-class UdpFd;
-typedef std::shared_ptr<UdpFd> PUdpFd;
-class UdpFd {
- public:
-    static error_t create_fd(PUdpFd& fd);
-    static error_t create_fd(int bind_port, PUdpFd& fd,
-                             bool reuse_addr = false,
-                             bool reuse_port = false);
-
- public:
-    explicit UdpFd(st_netfd_t udp_fd);
-    ~UdpFd();
-
-    st_netfd_t get_fd();
-
- private:
-    st_netfd_t udp_fd;
-};
-
-class StUdpClientSocket : public IReaderWriter {
- public:
-    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
-
- public:
-    // reader
-    void    set_recv_timeout(utime_t tm) override;
-    utime_t get_recv_timeout() override;
-
-    error_t connect();
-    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
-
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
-                 std::string& dst_ip, int& dst_port);
-
- public:
-    // writer
-    void set_send_timeout(utime_t tm) override;
-    utime_t get_send_timeout() override;
-    error_t write(void* buf, size_t size) override;
-
- private:
-    utime_t rtm;
-    utime_t stm;
-    // The recv/send data in bytes
-    int64_t rbytes;
-    int64_t sbytes;
-    // The underlayer st fd.
-    PUdpFd fd;
-
-    // peer address
-    std::string peer_ip;
-    int         peer_port;
-    sockaddr_in peer_addr;
-    bool        connected;
-
-    char control_buf[0x100];
-};
-
-typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
-
-class UdpBuffer {
- public:
-    UdpBuffer(uint8_t* buf, size_t len);
-    ~UdpBuffer();
-
- private:
-    UdpBuffer(const UdpBuffer& buffer);
-
- public:
-    uint8_t* buffer();
-    size_t   size();
-
- private:
-    uint8_t* buf;
-    size_t   len;
-};
-
-typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
-
-/**
- * udp session wrap
- * read from udp server
- * sent by udp fd
- */
-class StUdpSessionClientSocket : public StUdpClientSocket {
- public:
-    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
-    ~StUdpSessionClientSocket() override;
-
- public:
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    error_t push(uint8_t* buf, size_t len);
-
- private:
-    std::list<PUdpBuffer> buffer_lists;
-    PCondition cond;
-    int buffer_max_list_size;
-    int buffer_list_size;
-};
-typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
-
-class IUdpSocketManager;
-class UdpSessionSocket : public Socket {
- public:
-    UdpSessionSocket(IUdpSocketManager* manger);
-    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
-                     const std::string& dip, int dp);
-    ~UdpSessionSocket() override;
-
- private:
-    IUdpSocketManager* manager;
-};
-
-class IUdpSocketManager {
- public:
-    virtual void on_destroy(UdpSessionSocket* session) = 0;
-};
-
-class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
-                          public std::enable_shared_from_this<StUdpServerSocket> {
- public:
-    StUdpServerSocket() = default;
-    ~StUdpServerSocket();
-
- public:
-    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
-    PSocket accept() override;
-    error_t handler() override;
-
- public:
-    void on_destroy(UdpSessionSocket* session) override;
-
- private:
-    std::string generate_key(const std::string& cip, int cport,
-                             const std::string& dip, int dport);
-    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
-                                               std::string& sip, int sport,
-                                               bool &is_new);
-    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
-
- private:
-    bool     running     = false;
-    uint8_t* buffer      = nullptr;
-    int      buffer_size = 64 * 1024;  // the largest datagram
-    std::string ip;
-    int         port;
-    bool        reuse_port;
-    PUdpFd      server_fd;
-    PStUdpClientSocket server_socket;
-
- private:
-    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
-    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
-    PCondition new_cond;
-};
-
-}  // namespace sps
-
-#endif  // SPS_SYS_ST_IO_UDP_HPP
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+#ifndef SPS_SYS_ST_IO_UDP_HPP
+#define SPS_SYS_ST_IO_UDP_HPP
+
+#include <sps_io_socket.hpp>
+#include <sps_sys_co.hpp>
+#include <sps_sys_sync.hpp>
+#include <sps_sys_st_io_tcp.hpp>
+#include <arpa/inet.h>
+#include <netinet/in.h>
+#include <netdb.h>
+#include <sys/socket.h>
+
+namespace sps {
+
+class UdpFd;
+typedef std::shared_ptr<UdpFd> PUdpFd;
+class UdpFd {
+ public:
+    static error_t create_fd(PUdpFd& fd);
+    static error_t create_fd(int bind_port, PUdpFd& fd,
+                             bool reuse_addr = false,
+                             bool reuse_port = false);
+
+ public:
+    explicit UdpFd(st_netfd_t udp_fd);
+    ~UdpFd();
+
+    st_netfd_t get_fd();
+
+ private:
+    st_netfd_t udp_fd;
+};
+
+class StUdpClientSocket : public IReaderWriter {
+ public:
+    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
+
+ public:
+    // reader
+    void    set_recv_timeout(utime_t tm) override;
+    utime_t get_recv_timeout() override;
+
+    error_t connect();
+    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
+
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
+                 std::string& dst_ip, int& dst_port);
+
+ public:
+    // writer
+    void set_send_timeout(utime_t tm) override;
+    utime_t get_send_timeout() override;
+    error_t write(void* buf, size_t size) override;
+
+ private:
+    utime_t rtm;
+    utime_t stm;
+    // The recv/send data in bytes
+    int64_t rbytes;
+    int64_t sbytes;
+    // The underlayer st fd.
+    PUdpFd fd;
+
+    // peer address
+    std::string peer_ip;
+    int         peer_port;
+    sockaddr_in peer_addr;
+    bool        connected;
+
+    char control_buf[0x100];
+};
+
+typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
+
+class UdpBuffer {
+ public:
+    UdpBuffer(uint8_t* buf, size_t len);
+    ~UdpBuffer();
+
+ private:
+    UdpBuffer(const UdpBuffer& buffer);
+
+ public:
+    uint8_t* buffer();
+    size_t   size();
+
+ private:
+    uint8_t* buf;
+    size_t   len;
+};
+
+typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
+
+/**
+ * udp session wrap
+ * read from udp server
+ * sent by udp fd
+ */
+class StUdpSessionClientSocket : public StUdpClientSocket {
+ public:
+    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
+    ~StUdpSessionClientSocket() override;
+
+ public:
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    error_t push(uint8_t* buf, size_t len);
+
+ private:
+    std::list<PUdpBuffer> buffer_lists;
+    PCondition cond;
+    int buffer_max_list_size;
+    int buffer_list_size;
+};
+typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
+
+class IUdpSocketManager;
+class UdpSessionSocket : public Socket {
+ public:
+    UdpSessionSocket(IUdpSocketManager* manger);
+    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
+                     const std::string& dip, int dp);
+    ~UdpSessionSocket() override;
+
+ private:
+    IUdpSocketManager* manager;
+};
+
+class IUdpSocketManager {
+ public:
+    virtual void on_destroy(UdpSessionSocket* session) = 0;
+};
+
+class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
+                          public std::enable_shared_from_this<StUdpServerSocket> {
+ public:
+    StUdpServerSocket() = default;
+    ~StUdpServerSocket();
+
+ public:
+    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
+    PSocket accept() override;
+    error_t handler() override;
+
+ public:
+    void on_destroy(UdpSessionSocket* session) override;
+
+ private:
+    std::string generate_key(const std::string& cip, int cport,
+                             const std::string& dip, int dport);
+    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
+                                               std::string& sip, int sport,
+                                               bool &is_new);
+    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
+
+ private:
+    bool     running     = false;
+    uint8_t* buffer      = nullptr;
+    int      buffer_size = 64 * 1024;  // the largest datagram
+    std::string ip;
+    int         port;
+    bool        reuse_port;
+    PUdpFd      server_fd;
+    PStUdpClientSocket server_socket;
+
+ private:
+    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
+    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
+    PCondition new_cond;
+};
+
+}  // namespace sps
+
+#endif  // SPS_SYS_ST_IO_UDP_HPP
-- 
2.43.0

