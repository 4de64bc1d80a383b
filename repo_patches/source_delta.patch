From 842fb98cc613c707275143e6435de8895695a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 01/73] fix: encoder: reject TNT-8 packets without bits or with
 excess payload bits

An empty TNT-8 packet was encoded as the bare ext opcode byte and excess TNT-8
payload bits moved the stop bit.
---
 libipt/src/pt_encoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..5f8cbc6 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -328,6 +328,12 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		if (packet->payload.tnt.bit_size >= 7)
 			return -pte_bad_packet;
 
+		if (!packet->payload.tnt.bit_size)
+			return -pte_bad_packet;
+
+		if (packet->payload.tnt.payload >> packet->payload.tnt.bit_size)
+			return -pte_bad_packet;
+
 		errcode = pt_reserve(encoder, ptps_tnt_8);
 		if (errcode < 0)
 			return errcode;
-- 
2.43.0


From 95a5c2f1ec1fee4b72d87ad213340efcc0237543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 02/73] fix: sync_set: check the offset before computing the
 position

A huge offset overflowed the pointer computation and could wrap around into the
buffer.
---
 libipt/src/pt_encoder.c        | 5 +++--
 libipt/src/pt_packet_decoder.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index 5f8cbc6..d5507b7 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -93,11 +93,12 @@ int pt_enc_sync_set(struct pt_encoder *encoder, uint64_t offset)
 
 	begin = encoder->config.begin;
 	end = encoder->config.end;
-	pos = begin + offset;
 
-	if (end < pos || pos < begin)
+	if ((uint64_t) (end - begin) < offset)
 		return -pte_eos;
 
+	pos = begin + offset;
+
 	encoder->pos = pos;
 	return 0;
 }
diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..3f0d329 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -157,11 +157,12 @@ int pt_pkt_sync_set(struct pt_packet_decoder *decoder, uint64_t offset)
 
 	begin = decoder->config.begin;
 	end = decoder->config.end;
-	pos = begin + offset;
 
-	if (end < pos || pos < begin)
+	if ((uint64_t) (end - begin) < offset)
 		return -pte_eos;
 
+	pos = begin + offset;
+
 	decoder->sync = pos;
 	decoder->pos = pos;
 
-- 
2.43.0


From 946311175674f11bf13f99c13495d1efc8e9f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 03/73] fix: packet decoder: do not skip beyond the trace
 buffer for SKZ84

The corrupted TMA is followed by a bogus byte, which may lie outside of the
buffer.
---
 libipt/src/pt_packet_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 3f0d329..0e9cd5a 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -521,6 +521,9 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			if (decoder->config.end < decoder->pos + size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From e9bd2d219001e7eeaadcb09942cfbaaf215dec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 04/73] fix: packet: accept CYC payloads that use the upper
 bits of the value

The encoder accepts any 64-bit CYC value but the reader rejected values with
more than 61 significant bits although they fit.
---
 libipt/src/pt_packet.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_packet.c b/libipt/src/pt_packet.c
index a10d052..27fe48a 100644
--- a/libipt/src/pt_packet.c
+++ b/libipt/src/pt_packet.c
@@ -419,12 +419,14 @@ int pt_pkt_read_cyc(struct pt_packet_cyc *packet, const uint8_t *pos,
 		ext = bits & pt_opm_cycx_ext;
 
 		bits >>= pt_opm_cycx_shr;
-		bits <<= shl;
 
-		shl += (8 - pt_opm_cycx_shr);
-		if (sizeof(value) * 8 < shl)
+		/* Check that the payload fits. */
+		if ((sizeof(value) * 8 <= shl) || (bits > (UINT64_MAX >> shl)))
 			return -pte_bad_packet;
 
+		bits <<= shl;
+		shl += (8 - pt_opm_cycx_shr);
+
 		value |= bits;
 	}
 
-- 
2.43.0


From 5b565663bae8c71de3e365bae7dfc7b0b63a271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 05/73] fix: sync: never find the same PSB again when searching
 backward

When the PSB pattern is preceded by bytes that also match the pattern, the
backward search from a PSB found that very PSB again and again.  Loops that
expect the search to move backward did not terminate.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..225e849 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* If the PSB payload pattern extends beyond @start, we may find a
+		 * PSB at or after @start.  Ignore it since we must move backward.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From 6799de095131466127fb9ef1a88c0941c912e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 06/73] fix: packet decoder: report eos on sync forward from
 the end of the trace

When explicitly positioned at the end of the trace, the search started behind
the trace buffer and failed with -pte_internal.
---
 libipt/src/pt_packet_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 0e9cd5a..53aeaaa 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -101,8 +101,13 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 	if (!pos)
 		pos = begin;
 
-	if (pos == sync)
+	if (pos == sync) {
+		/* There cannot be another PSB if this one wouldn't fit. */
+		if ((decoder->config.end - pos) < ptps_psb)
+			return -pte_eos;
+
 		pos += ptps_psb;
+	}
 
 	if (pos < begin)
 		return -pte_internal;
-- 
2.43.0


From f8ecde82c5029bbd1432c31b90f8fc1c466e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 07/73] fix: event decoder: do not use a stale packet size for
 the offset

pt_evt_get_offset() subtracts the size of the current packet from the packet
decoder's position.  When synchronization fails, the position may already have
been changed while the size is still that of an unrelated packet, which may
result in an offset outside of the trace buffer.

Clear the packet's size on reset.
---
 libipt/src/pt_event_decoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..e15670d 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -56,6 +56,7 @@ static int pt_evt_reset(struct pt_event_decoder *decoder)
 		return -pte_internal;
 
 	decoder->packet.type = ppt_invalid;
+	decoder->packet.size = 0;
 	decoder->status = -pte_nosync;
 	decoder->event = NULL;
 	decoder->enabled = 0;
-- 
2.43.0


From 1f2cfddb857649e808605ba3e6e5bbb139cd0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 08/73] fix: event decoder: refuse to synchronize on the
 padding before a PSB

pt_evt_sync_set() accepted an offset that points to PAD packets preceding a PSB
and then reported that offset as synchronization point.
---
 libipt/src/pt_event_decoder.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index e15670d..06e5e43 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -31,6 +31,7 @@
 #include "pt_compiler.h"
 #include "pt_opcodes.h"
 #include "pt_config.h"
+#include "pt_sync.h"
 
 #include <stdlib.h>
 #include <string.h>
@@ -1523,6 +1524,7 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 
 int pt_evt_sync_set(struct pt_event_decoder *decoder, uint64_t offset)
 {
+	const uint8_t *sync;
 	int errcode;
 
 	if (!decoder)
@@ -1536,6 +1538,15 @@ int pt_evt_sync_set(struct pt_event_decoder *decoder, uint64_t offset)
 	if (errcode < 0)
 		return errcode;
 
+	/* Check that there is a PSB at @offset.
+	 *
+	 * We would otherwise accept a position inside the padding before it.
+	 */
+	errcode = pt_sync_set(&sync, pt_evt_pos(decoder),
+			      pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	return pt_evt_start(decoder);
 }
 
-- 
2.43.0


From 1a77af666dd4015b60af81c7f895402f06095dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 09/73] fix: sync backward: find the last PSB from the end of
 the trace

When the decoder has not been synchronized, pt_*_sync_backward() start searching
from the end of the trace.  They skipped the last segment if decoding its PSB+
consumed the remaining trace since they did not distinguish this from finding
the PSB they are already at.

The event decoder further stopped at an incomplete PSB+ at the end of the trace
instead of skipping it.
---
 libipt/src/pt_block_decoder.c | 32 +++++++++++---------------------
 libipt/src/pt_event_decoder.c | 17 ++++++++++-------
 libipt/src/pt_query_decoder.c | 32 +++++++++++---------------------
 3 files changed, 32 insertions(+), 49 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..6c94055 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -508,23 +508,15 @@ int pt_blk_sync_forward(struct pt_block_decoder *decoder)
 int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We start from the end of the trace if we have not been synchronized,
+	 * yet.  There's no need to skip any PSB in this case.
+	 */
 	start = pt_blk_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_blk_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
 
 	sync = start;
 	for (;;) {
@@ -538,17 +530,17 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 				return errcode;
 
 			pos = pt_blk_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
-		errcode = pt_blk_start(decoder);
-		if (errcode < 0) {
+		status = pt_blk_start(decoder);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -557,11 +549,9 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 		 * the same PSB again.  Skip it.
 		 */
 		pos = pt_blk_pos(decoder);
-		if (pos < start)
-			break;
+		if (!start || (pos < start))
+			return 0;
 	}
-
-	return 0;
 }
 
 int pt_blk_sync_set(struct pt_block_decoder *decoder, uint64_t offset)
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 06e5e43..443d8fc 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1491,12 +1491,10 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We start from the end of the trace if we have not been synchronized,
+	 * yet.  There's no need to skip any PSB in this case.
+	 */
 	start = pt_evt_pos(decoder);
-	if (!start) {
-		start = pt_evt_end(decoder);
-		if (!start)
-			return -pte_bad_config;
-	}
 
 	sync = start;
 	for (;;) {
@@ -1510,14 +1508,19 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 				return errcode;
 
 			pos = pt_evt_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
+		/* Ignore incomplete trace segments at the end.  We need a full
+		 * PSB+ to start decoding.
+		 */
 		errcode = pt_evt_start(decoder);
+		if (errcode == -pte_eos)
+			continue;
 
 		pos = pt_evt_pos(decoder);
-		if (pos < start)
+		if (!start || (pos < start))
 			return errcode;
 	}
 }
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..c8bb885 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,23 +297,15 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We start from the end of the trace if we have not been synchronized,
+	 * yet.  There's no need to skip any PSB in this case.
+	 */
 	start = pt_qry_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_qry_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
 
 	sync = start;
 	for (;;) {
@@ -327,17 +319,17 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 				return errcode;
 
 			pos = pt_qry_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -346,11 +338,9 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		 * the same PSB again.  Skip it.
 		 */
 		pos = pt_qry_pos(decoder);
-		if (pos < start)
-			break;
+		if (!start || (pos < start))
+			return 0;
 	}
-
-	return 0;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 0440c6f7b7c4050f06c75e1d1c8dd6cb85602ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 10/73] fix: query, block: return the status on sync backward

pt_qry_sync_backward() and pt_blk_sync_backward() returned zero instead of the
status flags.  The instruction flow decoder also relies on the status to learn
whether tracing is enabled.
---
 libipt/src/pt_block_decoder.c | 2 +-
 libipt/src/pt_query_decoder.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 6c94055..2f48c7a 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -550,7 +550,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 		 */
 		pos = pt_blk_pos(decoder);
 		if (!start || (pos < start))
-			return 0;
+			return status;
 	}
 }
 
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index c8bb885..afec771 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -339,7 +339,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		 */
 		pos = pt_qry_pos(decoder);
 		if (!start || (pos < start))
-			return 0;
+			return status;
 	}
 }
 
-- 
2.43.0


From 9482f73d82d68613ee99cb0e746ae8740f80bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 11/73] fix: event decoder: do not skip a PSB that has only
 been read ahead

The event decoder reads one packet ahead.  If that packet is a PSB,
pt_evt_sync_forward() searched behind it and skipped the segment it starts.
---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 443d8fc..ac28b06 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1472,6 +1472,12 @@ int pt_evt_sync_forward(struct pt_event_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We read one packet ahead.  Do not skip a PSB that we have not
+	 * processed, yet.
+	 */
+	if (decoder->packet.type == ppt_psb)
+		decoder->pacdec.pos -= decoder->packet.size;
+
 	errcode = pt_evt_reset(decoder);
 	if (errcode < 0)
 		return errcode;
-- 
2.43.0


From a4a7fd97217f7ecd06b5955fff58f14d861804b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 12/73] fix: sync: iterate over synchronization points despite
 read-ahead

When synchronizing, decoders read ahead up to the first event they cannot
process immediately.  If there is no such event in the segment, e.g. because
tracing is disabled, this consumes the next PSB+, as well.

A subsequent pt_*_sync_forward() then skipped synchronization points and
pt_*_sync_backward() repeatedly found the same one.

Start searching from the synchronization point if the decoder has not moved
since.
---
 libipt/internal/include/pt_event_decoder.h | 23 ++++++++++++++++++++++
 libipt/src/pt_block_decoder.c              | 15 +++++++++++---
 libipt/src/pt_event_decoder.c              | 20 +++++++++++++------
 libipt/src/pt_insn_decoder.c               |  9 ++++++++-
 libipt/src/pt_query_decoder.c              |  9 +++++++--
 5 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/libipt/internal/include/pt_event_decoder.h b/libipt/internal/include/pt_event_decoder.h
index 7b49ef9..f7fa2eb 100644
--- a/libipt/internal/include/pt_event_decoder.h
+++ b/libipt/internal/include/pt_event_decoder.h
@@ -82,6 +82,13 @@ struct pt_event_decoder {
 	/* The current event. */
 	struct pt_event *event;
 
+	/* The position of the packet decoder right after synchronizing.
+	 *
+	 * This includes packets that have been read ahead by higher layers as
+	 * part of synchronizing.  It is NULL if we are not synchronized.
+	 */
+	const uint8_t *start;
+
 	/* The last status of the packet decoder.
 	 *
 	 * It will be zero most of the time.  Since we fetch new packets at the
@@ -156,6 +163,22 @@ static inline const uint8_t *pt_evt_pos(const struct pt_event_decoder *decoder)
 	return pt_pkt_pos(&decoder->pacdec);
 }
 
+/* Remember the current position as the result of synchronizing. */
+static inline void pt_evt_set_start(struct pt_event_decoder *decoder)
+{
+	if (decoder)
+		decoder->start = pt_evt_pos(decoder);
+}
+
+/* Check if we have not moved since we synchronized onto the trace stream. */
+static inline int pt_evt_at_start(const struct pt_event_decoder *decoder)
+{
+	if (!decoder || !decoder->start)
+		return 0;
+
+	return decoder->start == pt_evt_pos(decoder);
+}
+
 static inline const uint8_t *pt_evt_end(const struct pt_event_decoder *decoder)
 {
 	const struct pt_config *config;
diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2f48c7a..994b0a6 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -484,7 +484,12 @@ static int pt_blk_start(struct pt_block_decoder *decoder)
 	decoder->status = pt_evt_next(&decoder->evdec, &decoder->event,
 				      sizeof(decoder->event));
 
-	return pt_blk_proceed_trailing_event(decoder, NULL);
+	errcode = pt_blk_proceed_trailing_event(decoder, NULL);
+	if (errcode < 0)
+		return errcode;
+
+	pt_evt_set_start(&decoder->evdec);
+	return errcode;
 }
 
 int pt_blk_sync_forward(struct pt_block_decoder *decoder)
@@ -514,9 +519,13 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 		return -pte_invalid;
 
 	/* We start from the end of the trace if we have not been synchronized,
-	 * yet.  There's no need to skip any PSB in this case.
+	 * yet.  If we have not moved since we synchronized, we start from our
+	 * synchronization point.  There's no need to skip any PSB in those
+	 * cases.
 	 */
-	start = pt_blk_pos(decoder);
+	start = NULL;
+	if (!pt_evt_at_start(&decoder->evdec))
+		start = pt_blk_pos(decoder);
 
 	sync = start;
 	for (;;) {
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ac28b06..072af5f 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -60,6 +60,7 @@ static int pt_evt_reset(struct pt_event_decoder *decoder)
 	decoder->packet.size = 0;
 	decoder->status = -pte_nosync;
 	decoder->event = NULL;
+	decoder->start = NULL;
 	decoder->enabled = 0;
 	decoder->bound = 0;
 	decoder->mode_exec_valid = 0;
@@ -1450,6 +1451,7 @@ static int pt_evt_start(struct pt_event_decoder *decoder)
 		if (errcode < 0)
 			return errcode;
 
+		pt_evt_set_start(decoder);
 		return 0;
 
 	case ppt_invalid:
@@ -1472,10 +1474,10 @@ int pt_evt_sync_forward(struct pt_event_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
-	/* We read one packet ahead.  Do not skip a PSB that we have not
-	 * processed, yet.
-	 */
-	if (decoder->packet.type == ppt_psb)
+	/* We read ahead.  Do not skip a PSB that we have not processed, yet. */
+	if (pt_evt_at_start(decoder))
+		decoder->pacdec.pos = decoder->pacdec.sync;
+	else if (decoder->packet.type == ppt_psb)
 		decoder->pacdec.pos -= decoder->packet.size;
 
 	errcode = pt_evt_reset(decoder);
@@ -1498,9 +1500,15 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 		return -pte_invalid;
 
 	/* We start from the end of the trace if we have not been synchronized,
-	 * yet.  There's no need to skip any PSB in this case.
+	 * yet.  If we have not moved since we synchronized, we start from our
+	 * synchronization point.  There's no need to skip any PSB in those
+	 * cases.
 	 */
-	start = pt_evt_pos(decoder);
+	if (pt_evt_at_start(decoder)) {
+		decoder->pacdec.pos = decoder->pacdec.sync;
+		start = NULL;
+	} else
+		start = pt_evt_pos(decoder);
 
 	sync = start;
 	for (;;) {
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 762a2a2..fd682a6 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -308,6 +308,8 @@ static int pt_insn_cond_branch(struct pt_insn_decoder *decoder, int *taken)
 
 static int pt_insn_start(struct pt_insn_decoder *decoder, int status)
 {
+	int errcode;
+
 	if (!decoder)
 		return -pte_internal;
 
@@ -329,7 +331,12 @@ static int pt_insn_start(struct pt_insn_decoder *decoder, int status)
 	 * We do this already here so we can indicate user-events that precede
 	 * the first instruction.
 	 */
-	return pt_insn_check_ip_event(decoder, NULL, NULL);
+	errcode = pt_insn_check_ip_event(decoder, NULL, NULL);
+	if (errcode < 0)
+		return errcode;
+
+	pt_evt_set_start(&decoder->query.evdec);
+	return errcode;
 }
 
 int pt_insn_sync_forward(struct pt_insn_decoder *decoder)
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index afec771..586993a 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -273,6 +273,7 @@ static int pt_qry_start(struct pt_query_decoder *decoder, uint64_t *ip)
 
 	status |= flags;
 
+	pt_evt_set_start(&decoder->evdec);
 	return status;
 }
 
@@ -303,9 +304,13 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		return -pte_invalid;
 
 	/* We start from the end of the trace if we have not been synchronized,
-	 * yet.  There's no need to skip any PSB in this case.
+	 * yet.  If we have not moved since we synchronized, we start from our
+	 * synchronization point.  There's no need to skip any PSB in those
+	 * cases.
 	 */
-	start = pt_qry_pos(decoder);
+	start = NULL;
+	if (!pt_evt_at_start(&decoder->evdec))
+		start = pt_qry_pos(decoder);
 
 	sync = start;
 	for (;;) {
-- 
2.43.0


From b6fd015d2ac0252aa60434bc162e2846752a2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 13/73] fix: event decoder: handle iflags and redundant
 mode.exec at tip.pgd

A MODE.EXEC that only changed the interrupt flag or that did not change
anything at all was diagnosed as -pte_bad_context when followed by TIP.PGD.
MODE.EXEC packets that change the execution mode are accepted.
---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 072af5f..cd5c332 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3169,6 +3169,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3193,6 +3194,11 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From 9cdabc8ca4fc5cd37fe56ae6e736ec38110bc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 14/73] fix: time: reject MTC frequencies beyond the
 architectural range

---
 libipt/src/pt_time.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 511f27c..d4e57b3 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -63,6 +63,24 @@ int pt_time_query_tsc(uint64_t *tsc, uint32_t *lost_mtc,
 	return 0;
 }
 
+/* Check the MTC frequency.
+ *
+ * IA32_RTIT_CTL.MTCFreq is a four-bit field.  Bigger values are not supported
+ * by hardware and would overflow our CTC computations.
+ *
+ * Returns zero on success, a negative error code otherwise.
+ */
+static int pt_time_check_mtc_freq(const struct pt_config *config)
+{
+	if (!config)
+		return -pte_internal;
+
+	if (config->mtc_freq > 15)
+		return -pte_bad_config;
+
+	return 0;
+}
+
 int pt_time_query_cbr(uint32_t *cbr, const struct pt_time *time)
 {
 	if (!cbr || !time)
@@ -178,10 +196,15 @@ int pt_time_update_tma(struct pt_time *time,
 {
 	uint32_t ctc, mtc_freq, mtc_hi, ctc_mask;
 	uint64_t fc;
+	int errcode;
 
 	if (!time || !packet || !config)
 		return -pte_internal;
 
+	errcode = pt_time_check_mtc_freq(config);
+	if (errcode < 0)
+		return errcode;
+
 	/* Without a TSC something is seriously wrong. */
 	if (!time->have_tsc)
 		return -pte_bad_context;
@@ -244,6 +267,10 @@ int pt_time_update_mtc(struct pt_time *time,
 	if (!time || !packet || !config)
 		return -pte_internal;
 
+	errcode = pt_time_check_mtc_freq(config);
+	if (errcode < 0)
+		return errcode;
+
 	have_tsc = time->have_tsc;
 	have_tma = time->have_tma;
 	have_mtc = time->have_mtc;
@@ -623,6 +650,10 @@ int pt_tcal_update_mtc(struct pt_time_cal *tcal,
 	if (!tcal || !packet || !config)
 		return -pte_internal;
 
+	errcode = pt_time_check_mtc_freq(config);
+	if (errcode < 0)
+		return errcode;
+
 	last_ctc = tcal->ctc;
 	have_mtc = tcal->have_mtc;
 	cyc = tcal->cyc_mtc;
-- 
2.43.0


From 4a5ee081e30b94e3e09d9189603c85ab1d2b86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 15/73] fix: ild: read branch displacements without assuming
 alignment

---
 libipt/src/pt_ild.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 6e3c970..25fe8cb 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1137,26 +1137,29 @@ static int set_branch_target(struct pt_insn_ext *iext, const struct pt_ild *ild)
 
 	iext->variant.branch.is_direct = 1;
 
+	/* The displacement is part of the raw instruction bytes; it need not
+	 * be aligned.
+	 */
 	if (ild->disp_bytes == 1) {
-		const int8_t *b = (const int8_t *)
-			get_byte_ptr(ild, ild->disp_pos);
+		int8_t b;
 
-		iext->variant.branch.displacement = *b;
+		memcpy(&b, get_byte_ptr(ild, ild->disp_pos), sizeof(b));
+		iext->variant.branch.displacement = b;
 	} else if (ild->disp_bytes == 2) {
-		const int16_t *w = (const int16_t *)
-			get_byte_ptr(ild, ild->disp_pos);
+		int16_t w;
 
-		iext->variant.branch.displacement = *w;
+		memcpy(&w, get_byte_ptr(ild, ild->disp_pos), sizeof(w));
+		iext->variant.branch.displacement = w;
 	} else if (ild->disp_bytes == 4) {
-		const int32_t *d = (const int32_t *)
-			get_byte_ptr(ild, ild->disp_pos);
+		int32_t d;
 
-		iext->variant.branch.displacement = *d;
+		memcpy(&d, get_byte_ptr(ild, ild->disp_pos), sizeof(d));
+		iext->variant.branch.displacement = d;
 	} else if (ild->disp_bytes == 8) {
-		const int64_t *d = (const int64_t *)
-			get_byte_ptr(ild, ild->disp_pos);
+		int64_t q;
 
-		iext->variant.branch.displacement = *d;
+		memcpy(&q, get_byte_ptr(ild, ild->disp_pos), sizeof(q));
+		iext->variant.branch.displacement = q;
 	} else
 		return -pte_bad_insn;
 
-- 
2.43.0


From c5a813b4357ceaf410e81880e1a2f530d1b09888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 16/73] fix: block decoder: proceed to a trigger location
 provided by FUP

---
 libipt/src/pt_block_decoder.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 994b0a6..e911790 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3812,9 +3812,12 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		if (ev->variant.trig.icnt)
 			break;
 
-		/* If this is the TRIG location, it better be right here. */
+		/* The TRIG location may have been provided by a subsequent FUP.
+		 *
+		 * We may not be there, yet.
+		 */
 		if (ev->variant.trig.ip != decoder->ip)
-			return -pte_bad_packet;
+			break;
 
 		return pt_blk_status(decoder, pts_event_pending);
 	}
-- 
2.43.0


From 6ad30f74ac8fcc22148bfff24f2e9b497c4201ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 17/73] fix: block decoder: respect end-of-block options on the
 way to a trigger

---
 libipt/src/pt_block_decoder.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e911790..084c4f8 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1601,6 +1601,18 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 
 		ev->variant.trig.ip = decoder->ip;
 		ev->variant.trig.icnt -= 1;
+
+		/* End the block if the user asked us to.
+		 *
+		 * We only need to take care about direct near branches.
+		 * Indirect and far branches require trace and will naturally
+		 * end a block.
+		 */
+		if ((decoder->flags.variant.block.end_on_call &&
+		     (insn->iclass == ptic_call)) ||
+		    (decoder->flags.variant.block.end_on_jump &&
+		     (insn->iclass == ptic_jump)))
+			return (ev->variant.trig.icnt ? 0 : 1);
 	}
 
 	return 1;
-- 
2.43.0


From 7fed3ba691e6ae8812aba38c81195f064b12f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 18/73] fix: block decoder: do not hide jumps inside shared
 block cache entries

---
 libipt/src/pt_block_decoder.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 084c4f8..b282416 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2373,7 +2373,7 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     postpone it to the next iteration.  Make sure to end the block if
 	 *     @decoder->flags.variant.block.end_on_call is set, though.
 	 *
-	 *   - at near direct backwards jumps to detect section splits
+	 *   - at near direct jumps to detect section splits
 	 *
 	 *     In case the current section is split underneath us, we must take
 	 *     care to detect that split.
@@ -2392,6 +2392,11 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     this one insert a trampoline to the jump's entry.  This would
 	 *     have been a bit more complicated.
 	 *
+	 *     We stop at forward jumps, as well.  The block cache is shared
+	 *     with other decoders and a decoder that wants to end blocks at
+	 *     jumps would otherwise not see the jumps inside of block cache
+	 *     entries added by a decoder that does not.
+	 *
 	 *   - if we switched sections
 	 *
 	 *     This ends a block just like a branch that requires trace.
@@ -2423,11 +2428,8 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		    (iext.iclass == PTI_INST_JMPABS))
 			return -pte_internal;
 
-		if (iext.variant.branch.displacement < 0 ||
-		    decoder->flags.variant.block.end_on_jump)
-			return pt_blk_add_decode(bcache, ioff, insn.mode);
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
-		fallthrough;
 	default:
 		if (!pt_blk_is_in_section(msec, nip) || block->truncated)
 			return pt_blk_add_decode(bcache, ioff, insn.mode);
-- 
2.43.0


From b21b2391a6fe753c80b90b132ade816b0e0dede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 19/73] fix: block decoder: expect to resume after the
 instruction that disabled tracing

---
 libipt/src/pt_block_decoder.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index b282416..a3a6b4f 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1796,6 +1796,14 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 			status = pt_blk_set_disable_resume_ip(decoder, &insn);
 			if (status < 0)
 				return status;
+		} else if (ev->ip_suppressed) {
+			/* We're at the instruction to which the event binds.
+			 *
+			 * We expect tracing to resume at the next instruction.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &insn, &iext);
+			if (status < 0)
+				return status;
 		}
 
 		break;
@@ -3313,8 +3321,16 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 
 		/* A sync disable may bind to a CR3 changing instruction. */
 		if (ev->ip_suppressed &&
-		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext))
+		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext)) {
+			/* We expect tracing to resume at the next instruction.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &decoder->insn,
+						 &decoder->iext);
+			if (status < 0)
+				return status;
+
 			return pt_blk_status(decoder, pts_event_pending);
+		}
 
 		/* Or it binds to the next branch that would require trace.
 		 *
-- 
2.43.0


From 73f4255daf3feb16ee65f59cb00fa5b10cc29591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 20/73] fix: block decoder: accept precise triggers with
 tracing disabled

---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a3a6b4f..bae5bcf 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1567,7 +1567,7 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	/* With tracing disabled, the TRIG IP must already be precise. */
 	if (!decoder->enabled) {
 		/* The event decoder must have guaranteed that. */
-		if (!ev->variant.trig.icnt)
+		if (ev->variant.trig.icnt)
 			return -pte_internal;
 
 		return 1;
-- 
2.43.0


From dcb55eec0e34f14a2ad639887fce2eaaebaaeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 21/73] fix: block decoder: end blocks at branches that reach
 an event's instruction

---
 libipt/src/pt_block_decoder.c | 104 +++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index bae5bcf..6abcd24 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1266,6 +1266,42 @@ static int pt_blk_set_disable_resume_ip(struct pt_block_decoder *decoder,
 	return 0;
 }
 
+/* Proceed past the instruction at a particular IP without using trace.
+ *
+ * Proceed until we reach @ip and then past the instruction at @ip.
+ *
+ * Returns a positive integer if we proceeded past @ip.
+ * Returns zero if the block ended before.
+ * Returns a negative error code otherwise.
+ */
+static int pt_blk_proceed_past_ip(struct pt_block_decoder *decoder,
+				  struct pt_block *block, struct pt_insn *insn,
+				  struct pt_insn_ext *iext, uint64_t ip)
+{
+	int status;
+
+	if (!decoder || !block)
+		return -pte_internal;
+
+	status = pt_blk_proceed_to_ip(decoder, block, insn, iext, ip);
+	if (status <= 0)
+		return status;
+
+	/* End the block if the user asked us to.
+	 *
+	 * The branch at the end of the block may have reached @ip.  We will
+	 * proceed past @ip in the next block.
+	 */
+	if (!pt_blk_block_is_empty(block) &&
+	    ((decoder->flags.variant.block.end_on_call &&
+	      (block->iclass == ptic_call)) ||
+	     (decoder->flags.variant.block.end_on_jump &&
+	      (block->iclass == ptic_jump))))
+		return 0;
+
+	return pt_blk_proceed_one_insn(decoder, block, insn, iext);
+}
+
 /* Proceed to the event location for a ptwrite event.
  *
  * We have a ptwrite event pending.  Proceed to the event location and indicate
@@ -1287,8 +1323,6 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 				     struct pt_insn_ext *iext,
 				     struct pt_event *ev)
 {
-	int status;
-
 	if (!insn || !ev)
 		return -pte_internal;
 
@@ -1309,19 +1343,12 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_ptwrite);
 
-	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
-				      ev->variant.ptwrite.ip);
-	if (status <= 0)
-		return status;
-
-	/* We reached the PTWRITE instruction and @decoder->ip points to it;
-	 * @insn/@iext still contain the preceding instruction.
-	 *
-	 * Proceed beyond the PTWRITE to account for it.  Note that we may
-	 * still overflow the block, which would cause us to postpone both
+	/* Proceed beyond the PTWRITE to account for it.  Note that we may still
+	 * end the block before, which would cause us to postpone both
 	 * instruction and event to the next block.
 	 */
-	return pt_blk_proceed_one_insn(decoder, block, insn, iext);
+	return pt_blk_proceed_past_ip(decoder, block, insn, iext,
+				      ev->variant.ptwrite.ip);
 }
 
 /* Proceed to the event location for an iret event.
@@ -1345,8 +1372,6 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 				  struct pt_insn_ext *iext,
 				  struct pt_event *ev)
 {
-	int status;
-
 	if (!insn || !ev)
 		return -pte_internal;
 
@@ -1367,19 +1392,12 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_iret);
 
-	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
-				      ev->variant.iret.ip);
-	if (status <= 0)
-		return status;
-
-	/* We reached the IRET instruction and @decoder->ip points to it;
-	 * @insn/@iext still contain the preceding instruction.
-	 *
-	 * Proceed beyond the IRET to account for it.  Note that we may still
-	 * overflow the block, which would cause us to postpone both
+	/* Proceed beyond the IRET to account for it.  Note that we may still
+	 * end the block before, which would cause us to postpone both
 	 * instruction and event to the next block.
 	 */
-	return pt_blk_proceed_one_insn(decoder, block, insn, iext);
+	return pt_blk_proceed_past_ip(decoder, block, insn, iext,
+				      ev->variant.iret.ip);
 }
 
 /* Proceed to the event location for a vmentry event.
@@ -1403,8 +1421,6 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 				     struct pt_insn_ext *iext,
 				     struct pt_event *ev)
 {
-	int status;
-
 	if (!insn || !ev)
 		return -pte_internal;
 
@@ -1425,19 +1441,12 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_vmentry);
 
-	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
-				      ev->variant.vmentry.ip);
-	if (status <= 0)
-		return status;
-
-	/* We reached the vmentry instruction and @decoder->ip points to it;
-	 * @insn/@iext still contain the preceding instruction.
-	 *
-	 * Proceed beyond the vmentry to account for it.  Note that we may
-	 * still overflow the block, which would cause us to postpone both
+	/* Proceed beyond the vmentry to account for it.  Note that we may still
+	 * end the block before, which would cause us to postpone both
 	 * instruction and event to the next block.
 	 */
-	return pt_blk_proceed_one_insn(decoder, block, insn, iext);
+	return pt_blk_proceed_past_ip(decoder, block, insn, iext,
+				      ev->variant.vmentry.ip);
 }
 
 /* Proceed to the event location for an uiret event.
@@ -1461,8 +1470,6 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 				   struct pt_insn_ext *iext,
 				   struct pt_event *ev)
 {
-	int status;
-
 	if (!insn || !ev)
 		return -pte_internal;
 
@@ -1483,19 +1490,12 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 		return pt_blk_proceed_to_insn(decoder, block, insn, iext,
 					      pt_insn_is_uiret);
 
-	status = pt_blk_proceed_to_ip(decoder, block, insn, iext,
-				      ev->variant.uiret.ip);
-	if (status <= 0)
-		return status;
-
-	/* We reached the UIRET instruction and @decoder->ip points to it;
-	 * @insn/@iext still contain the preceding instruction.
-	 *
-	 * Proceed beyond the UIRET to account for it.  Note that we may still
-	 * overflow the block, which would cause us to postpone both
+	/* Proceed beyond the UIRET to account for it.  Note that we may still
+	 * end the block before, which would cause us to postpone both
 	 * instruction and event to the next block.
 	 */
-	return pt_blk_proceed_one_insn(decoder, block, insn, iext);
+	return pt_blk_proceed_past_ip(decoder, block, insn, iext,
+				      ev->variant.uiret.ip);
 }
 
 /* Provide a TRIG anchor IP for @ev unless @ev already has one.
-- 
2.43.0


From 0ba012c335753acc390f3d592c66aa3aee105aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 22/73] fix: block decoder: do not recurse for every direct
 jump

---
 libipt/src/pt_block_decoder.c | 63 +++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 6abcd24..7d8a2da 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2601,26 +2601,18 @@ static int pt_blk_proceed_truncated(struct pt_block_decoder *decoder,
 	return 0;
 }
 
-/* Proceed to the next decision point using the block cache.
- *
- * Tracing is enabled and we don't have an event pending.  We already set
- * @block's isid.  All reads are done within @msec as we're not switching
- * sections between blocks.
- *
- * Proceed as far as we get without trace.  Stop when we either:
- *
- *   - need trace in order to continue
- *   - overflow the max number of instructions in a block
+/* Proceed to the next block cache entry's decision point.
  *
- * We actually proceed one instruction further to get the start IP for the next
- * block.  This only updates @decoder's internal state, though.
+ * This is a single step of pt_blk_proceed_no_event_cached().
  *
- * Returns zero on success, a negative error code otherwise.
+ * Returns a positive integer if we may proceed further in the same block.
+ * Returns zero if @block is complete.
+ * Returns a negative error code otherwise.
  */
-static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
-					  struct pt_block *block,
-					  struct pt_block_cache *bcache,
-					  const struct pt_mapped_section *msec)
+static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
+				       struct pt_block *block,
+				       struct pt_block_cache *bcache,
+				       const struct pt_mapped_section *msec)
 {
 	struct pt_bcache_entry bce;
 	uint16_t binsn, ninsn;
@@ -2719,8 +2711,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		 */
 		block->iclass = ptic_unknown;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		return 1;
 
 	case ptbq_cond:
 		/* We're at a conditional branch. */
@@ -2843,8 +2834,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		if (!pt_blk_is_in_section(msec, decoder->ip))
 			return 0;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		return 1;
 	}
 
 	case ptbq_ind_call: {
@@ -2937,6 +2927,37 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 	return -pte_internal;
 }
 
+/* Proceed to the next decision point using the block cache.
+ *
+ * Tracing is enabled and we don't have an event pending.  We already set
+ * @block's isid.  All reads are done within @msec as we're not switching
+ * sections between blocks.
+ *
+ * Proceed as far as we get without trace.  Stop when we either:
+ *
+ *   - need trace in order to continue
+ *   - overflow the max number of instructions in a block
+ *
+ * We actually proceed one instruction further to get the start IP for the next
+ * block.  This only updates @decoder's internal state, though.
+ *
+ * Returns zero on success, a negative error code otherwise.
+ */
+static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
+					  struct pt_block *block,
+					  struct pt_block_cache *bcache,
+					  const struct pt_mapped_section *msec)
+{
+	int status;
+
+	do {
+		status = pt_blk_step_no_event_cached(decoder, block, bcache,
+						     msec);
+	} while (status > 0);
+
+	return status;
+}
+
 static int pt_blk_msec_fill(struct pt_block_decoder *decoder,
 			    const struct pt_mapped_section **pmsec)
 {
-- 
2.43.0


From 41a8074f62ae25c8a24eda46c5029f04eaf537ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 23/73] fix: block decoder: do not use block cache entries of
 another execution mode

The block cache is indexed by the section offset only.  When the same code
is executed in different execution modes or after mode was misinterpreted
due to trace errors, we used cached decisions for the wrong mode and either
misinterpreted code or failed with -pte_internal.
---
 libipt/src/pt_block_decoder.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 7d8a2da..5ba2bcc 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2489,12 +2489,14 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 			return 0;
 	}
 
-	/* We must not have switched execution modes.
+	/* We must not combine entries for different execution modes.
 	 *
-	 * This would require an event and we're on the no-event flow.
+	 * We can't have switched execution modes since this would require an
+	 * event and we're on the no-event flow.  But the entry may have been
+	 * added when executing the same code in a different execution mode.
 	 */
 	if (pt_bce_exec_mode(bce) != insn.mode)
-		return -pte_internal;
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
 	/* The decision point IP and the displacement from @insn.ip. */
 	dip = nip + (uint64_t) (int64_t) bce.displacement;
@@ -2633,6 +2635,16 @@ static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
 							  bcache, msec,
 							  bcache_fill_steps);
 
+	/* The cache entry may have been added for a different execution mode.
+	 *
+	 * The same code may be executed in different execution modes and we may
+	 * share the section with other decoders.
+	 *
+	 * Switch to the slow path until we reach the end of this section.
+	 */
+	if (pt_bce_exec_mode(bce) != decoder->mode)
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* If we switched sections, the original section must have been split
 	 * underneath us.  A split preserves the block cache of the original
 	 * section.
-- 
2.43.0


From a4daf7613e10f93557f7af846afc4cbcc5e92e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 24/73] fix: image: support sections that end at the end of the
 address space

The end of such a section wraps around to zero and none of its bytes could be
found.  Compare offsets into the section or its last byte, instead.
---
 libipt/internal/include/pt_mapped_section.h | 37 ++++++++++++---------
 libipt/src/pt_block_decoder.c               |  7 +---
 libipt/src/pt_image.c                       | 21 ++++++------
 3 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/libipt/internal/include/pt_mapped_section.h b/libipt/internal/include/pt_mapped_section.h
index 1694de0..ac47ccc 100644
--- a/libipt/internal/include/pt_mapped_section.h
+++ b/libipt/internal/include/pt_mapped_section.h
@@ -108,6 +108,22 @@ static inline uint64_t pt_msec_end(const struct pt_mapped_section *msec)
 	return msec->vaddr + msec->size;
 }
 
+/* Check if the memory region contains @vaddr.
+ *
+ * This also works for memory regions at the end of the address space, for which
+ * pt_msec_end() wraps around.
+ *
+ * Returns non-zero if it does, zero otherwise.
+ */
+static inline int pt_msec_contains(const struct pt_mapped_section *msec,
+				   uint64_t vaddr)
+{
+	if (!msec)
+		return 0;
+
+	return (vaddr - msec->vaddr) < msec->size;
+}
+
 /* Return the section/file offset. */
 static inline uint64_t pt_msec_offset(const struct pt_mapped_section *msec)
 {
@@ -170,29 +186,20 @@ static inline int pt_msec_read(const struct pt_mapped_section *msec,
 			       uint64_t vaddr)
 {
 	struct pt_section *section;
-	uint64_t begin, end, mbegin, mend, offset;
+	uint64_t offset, remaining;
 
 	if (!msec)
 		return -pte_internal;
 
-	begin = vaddr;
-	end = begin + size;
-	if (end < begin)
-		end = UINT64_MAX;
-
-	mbegin = pt_msec_begin(msec);
-	mend = pt_msec_end(msec);
-
-	if (begin < mbegin || mend <= begin)
+	if (!pt_msec_contains(msec, vaddr))
 		return -pte_nomap;
 
-	if (mend < end)
-		end = mend;
-
-	size = (uint16_t) (end - begin);
+	remaining = pt_msec_size(msec) - (vaddr - pt_msec_begin(msec));
+	if (remaining < size)
+		size = (uint16_t) remaining;
 
 	section = pt_msec_section(msec);
-	offset = pt_msec_unmap(msec, begin);
+	offset = pt_msec_unmap(msec, vaddr);
 
 	return pt_section_read(section, buffer, size, offset);
 }
diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 5ba2bcc..51a28e3 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2170,12 +2170,7 @@ static int pt_blk_proceed_no_event_uncached(struct pt_block_decoder *decoder,
 static inline int pt_blk_is_in_section(const struct pt_mapped_section *msec,
 				       uint64_t ip)
 {
-	uint64_t begin, end;
-
-	begin = pt_msec_begin(msec);
-	end = pt_msec_end(msec);
-
-	return (begin <= ip && ip < end);
+	return pt_msec_contains(msec, ip);
 }
 
 /* Insert a trampoline block cache entry.
diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..7804068 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -147,6 +147,10 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	begin = vaddr;
 	end = begin + size;
 
+	/* There is nothing to add for an empty section. */
+	if (!size)
+		return 0;
+
 	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
 	if (!next)
 		return -pte_nomem;
@@ -179,7 +183,10 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 		lbegin = pt_msec_begin(msec);
 		lend = pt_msec_end(msec);
 
-		if ((end <= lbegin) || (lend <= begin)) {
+		/* We compare the last bytes since the end wraps around for
+		 * sections at the end of the address space.
+		 */
+		if (((end - 1) < lbegin) || ((lend - 1) < begin)) {
 			list = &((*list)->next);
 			continue;
 		}
@@ -214,7 +221,7 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 		}
 
 		/* Add a section covering the remaining bytes at the back. */
-		if (end < lend) {
+		if ((end - 1) < (lend - 1)) {
 			new = pt_mk_section_list(lsec, masid, end,
 						 loff + (end - lbegin),
 						 lend - end, current->isid);
@@ -483,15 +490,12 @@ static inline int pt_image_check_msec(const struct pt_mapped_section *msec,
 				      uint64_t vaddr)
 {
 	const struct pt_asid *masid;
-	uint64_t begin, end;
 	int errcode;
 
 	if (!msec)
 		return -pte_internal;
 
-	begin = pt_msec_begin(msec);
-	end = pt_msec_end(msec);
-	if (vaddr < begin || end <= vaddr)
+	if (!pt_msec_contains(msec, vaddr))
 		return -pte_nomap;
 
 	masid = pt_msec_asid(msec);
@@ -670,16 +674,13 @@ int pt_image_validate(const struct pt_image *image,
 		      int isid)
 {
 	const struct pt_section_list *slist;
-	uint64_t begin, end;
 	int status;
 
 	if (!image || !usec)
 		return -pte_internal;
 
 	/* Check that @vaddr lies within @usec. */
-	begin = pt_msec_begin(usec);
-	end = pt_msec_end(usec);
-	if (vaddr < begin || end <= vaddr)
+	if (!pt_msec_contains(usec, vaddr))
 		return -pte_nomap;
 
 	/* We assume that @usec is a copy of the top of our stack and accept
-- 
2.43.0


From 5d1053566a78decb9877eea61097c27f5174213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 25/73] fix: image: copy only the parts of sections that are
 still mapped

pt_image_copy() added the entire section for every remaining part of a section
that had been shrunk or split.  This mapped parts in wrong places and replaced
other sections.
---
 libipt/src/pt_image.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 7804068..be17a5b 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,17 +133,18 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes starting at @offset in @section to @image. */
+static int pt_image_add_part(struct pt_image *image, struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
@@ -151,7 +152,7 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	if (!size)
 		return 0;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -252,6 +253,16 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	if (!image || !section)
+		return -pte_internal;
+
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -346,10 +357,15 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		/* The section may have been split so we only add the part that
+		 * is still mapped in @src.
+		 */
+		errcode = pt_image_add_part(image, list->section.section,
+					    &list->section.asid,
+					    list->section.vaddr,
+					    list->section.offset,
+					    list->section.size,
+					    list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From 8b19ece659779c39c8b64f5c879afdddd200b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 26/73] fix: block decoder: handle cached decision points that
 are cut by section ends

When the instruction at a cached decision point could not be decoded, it was
nevertheless included in the block.  When it was cut by a split of its section,
the part that had been replaced was ignored.
---
 libipt/src/pt_block_decoder.c | 95 ++++++++++++-----------------------
 1 file changed, 31 insertions(+), 64 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 51a28e3..2f91e75 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2536,68 +2536,6 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	return pt_bcache_add(bcache, ioff, bce);
 }
 
-/* Proceed at a potentially truncated instruction.
- *
- * We were not able to decode the instruction at @decoder->ip in @decoder's
- * cached section.  This is typically caused by not having enough bytes.
- *
- * Try to decode the instruction again using the entire image.  If this succeeds
- * we expect to end up with an instruction that was truncated in the section it
- * started.  We provide the full instruction in this case and end the block.
- *
- * Returns zero on success, a negative error code otherwise.
- */
-static int pt_blk_proceed_truncated(struct pt_block_decoder *decoder,
-				    struct pt_block *block)
-{
-	struct pt_insn_ext iext;
-	struct pt_insn insn;
-	int errcode;
-
-	if (!decoder || !block)
-		return -pte_internal;
-
-	memset(&iext, 0, sizeof(iext));
-	memset(&insn, 0, sizeof(insn));
-
-	insn.mode = decoder->mode;
-	insn.ip = decoder->ip;
-
-	errcode = pt_insn_decode(&insn, &iext, decoder->image, &decoder->asid);
-	if (errcode < 0)
-		return errcode;
-
-	/* We shouldn't use this function if the instruction isn't truncated. */
-	if (!insn.truncated)
-		return -pte_internal;
-
-	/* Provide the instruction in the block.  This ends the block. */
-	memcpy(block->raw, insn.raw, insn.size);
-	block->iclass = insn.iclass;
-	block->size = insn.size;
-	block->truncated = 1;
-
-	/* Log calls' return addresses for return compression. */
-	errcode = pt_blk_log_call(decoder, &insn, &iext);
-	if (errcode < 0)
-		return errcode;
-
-	/* Let's see if we can proceed to the next IP without trace.
-	 *
-	 * The truncated instruction ends the block but we still need to get the
-	 * next block's start IP.
-	 */
-	errcode = pt_insn_next_ip(&decoder->ip, &insn, &iext);
-	if (errcode < 0) {
-		if (errcode != -pte_bad_query)
-			return errcode;
-
-		return pt_blk_proceed_with_trace(decoder, &insn, &iext);
-	}
-
-	return 0;
-}
-
 /* Proceed to the next block cache entry's decision point.
  *
  * This is a single step of pt_blk_proceed_no_event_cached().
@@ -2613,7 +2551,9 @@ static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
 {
 	struct pt_bcache_entry bce;
 	uint16_t binsn, ninsn;
-	uint64_t offset, nip;
+	uint64_t offset, nip, bip, bend_ip;
+	uint32_t bicnt;
+	enum pt_insn_class biclass;
 	int status;
 
 	if (!decoder || !block)
@@ -2658,12 +2598,18 @@ static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
 	 * in the case of a near direct backward branch) we will detect all
 	 * section splits.
 	 *
+	 * If we know the size of the instruction at the decision point, we also
+	 * need to check that it was not cut by the split.
+	 *
 	 * Switch to the slow path until we reach the end of this section.
 	 */
 	nip = decoder->ip + (uint64_t) (int64_t) bce.displacement;
 	if (!pt_blk_is_in_section(msec, nip))
 		return pt_blk_proceed_no_event_uncached(decoder, block);
 
+	if (bce.isize && !pt_blk_is_in_section(msec, nip + bce.isize - 1))
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* We have a valid cache entry.  Let's first check if the way to the
 	 * decision point still fits into @block.
 	 *
@@ -2678,6 +2624,14 @@ static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
 	if (ninsn < binsn)
 		return 0;
 
+	/* Remember the current state.  We need to come back here if we're not
+	 * able to decode the instruction at the decision point.
+	 */
+	bip = decoder->ip;
+	bicnt = decoder->icnt;
+	bend_ip = block->end_ip;
+	biclass = block->iclass;
+
 	/* Update the instruction counter from the last anchor IP. */
 	if (decoder->has_icnt) {
 		uint32_t icnt, nicnt;
@@ -2794,7 +2748,20 @@ static int pt_blk_step_no_event_cached(struct pt_block_decoder *decoder,
 			if (status != -pte_bad_insn)
 				return status;
 
-			return pt_blk_proceed_truncated(decoder, block);
+			/* The instruction is potentially truncated.  This is
+			 * typically caused by not having enough bytes in the
+			 * decoder's cached section.
+			 *
+			 * Switch to the slow path to get the full instruction
+			 * or to end the block before it if there isn't any.
+			 */
+			decoder->ip = bip;
+			decoder->icnt = bicnt;
+			block->end_ip = bend_ip;
+			block->ninsn = binsn;
+			block->iclass = biclass;
+
+			return pt_blk_proceed_no_event_uncached(decoder, block);
 		}
 
 		/* We just decoded @insn so we know the instruction class. */
-- 
2.43.0


From 1a07b8fcf63445f7ac85dcb4bab155a0a97ee3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 27/73] fix: image: truncate sections that exceed the address
 space

Such sections were not considered when resolving overlaps with other sections.
---
 libipt/src/pt_image.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index be17a5b..4556610 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -152,6 +152,12 @@ static int pt_image_add_part(struct pt_image *image, struct pt_section *section,
 	if (!size)
 		return 0;
 
+	/* Truncate @size so the entire range lies within the address space. */
+	if ((end - 1) < begin) {
+		size = 0ull - begin;
+		end = 0ull;
+	}
+
 	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
-- 
2.43.0


From 250546ca54f81485c2c444c3d353b1350ff5d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 28/73] fix: iscache: report -pte_bad_image for big unknown
 section identifiers

We returned -pte_internal for identifiers beyond the maximal number of sections.
---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From fdab4007545285f6980ddae5cfd1978246f75889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 29/73] fix: ptseg: find the segment for offsets at or inside a
 PSB

---
 ptseg/src/ptseg.c | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/ptseg/src/ptseg.c b/ptseg/src/ptseg.c
index e6d7aad..4a49a29 100644
--- a/ptseg/src/ptseg.c
+++ b/ptseg/src/ptseg.c
@@ -215,23 +215,51 @@ err_file:
 
 static int ptseg_pkt_find_seg(uint64_t *begin, uint64_t *end,
 			      struct pt_packet_decoder *decoder,
-			      uint64_t offset)
+			      uint64_t offset, uint64_t size)
 {
+	const uint64_t psb_size = 16ull;
+	uint64_t pos;
 	int errcode;
 
 	errcode = pt_pkt_sync_set(decoder, offset);
 	if (errcode < 0)
 		return errcode;
 
-	errcode = pt_pkt_sync_backward(decoder);
-	if (errcode < 0) {
-		if (errcode != -pte_eos)
-			return errcode;
-	} else {
-		errcode = pt_pkt_get_offset(decoder, begin);
+	/* We search for PSBs that end before the start position.
+	 *
+	 * Start the search far enough behind @offset to also find a PSB that
+	 * contains @offset and skip PSBs that start behind @offset.
+	 */
+	pos = size;
+	if (psb_size < (size - offset))
+		pos = offset + psb_size;
+
+	errcode = pt_pkt_sync_set(decoder, pos);
+	if (errcode < 0)
+		return errcode;
+
+	do {
+		errcode = pt_pkt_sync_backward(decoder);
+		if (errcode < 0) {
+			if (errcode != -pte_eos)
+				return errcode;
+
+			/* There is no PSB before @offset. */
+			pos = 0ull;
+
+			errcode = pt_pkt_sync_set(decoder, pos);
+			if (errcode < 0)
+				return errcode;
+
+			break;
+		}
+
+		errcode = pt_pkt_get_offset(decoder, &pos);
 		if (errcode < 0)
 			return errcode;
-	}
+	} while (offset < pos);
+
+	*begin = pos;
 
 	errcode = pt_pkt_sync_forward(decoder);
 	if (errcode < 0) {
@@ -256,7 +284,8 @@ static int ptseg_find_seg(uint64_t *begin, uint64_t *end,
 	if (!decoder)
 		return -pte_nomem;
 
-	errcode = ptseg_pkt_find_seg(begin, end, decoder, offset);
+	errcode = ptseg_pkt_find_seg(begin, end, decoder, offset,
+				     (uint64_t) (config->end - config->begin));
 
 	pt_pkt_free_decoder(decoder);
 
-- 
2.43.0


From f27d386d0e0e05f4fabaedf68cd7d1972c15feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 30/73] fix: pevent: clear the reserved bytes of cpu samples

---
 pevent/src/pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index 48a003f..b843bd3 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -512,7 +512,7 @@ static int write_samples(uint8_t **stream, const struct pev_event *event,
 			return -pte_bad_packet;
 
 		write(stream, event->sample.cpu, sizeof(*event->sample.cpu));
-		*stream += sizeof(uint32_t);
+		clear(stream, sizeof(uint32_t));
 	}
 
 	if (sample_type & PERF_SAMPLE_IDENTIFIER) {
-- 
2.43.0


From fbef906b721e789a82b3ad8243b35a247a5e444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 31/73] fix: sideband: refuse to load a file range that begins
 beyond the file

The size of the range got negative and was passed to malloc() and fread().
---
 sideband/src/pt_sb_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 4591bcc..5f3a94d 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -76,6 +76,11 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 			fend = fsize;
 	}
 
+	if (fend < fbegin) {
+		fclose(file);
+		return -pte_invalid;
+	}
+
 	size = (size_t) (fend - fbegin);
 
 	errcode = fseek(file, fbegin, SEEK_SET);
-- 
2.43.0


From 72f2b45b84cddc861e6990ef5d18aa768cfbbe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 32/73] fix: sideband: free a perf event decoder once if its
 allocation fails

A failing pt_sb_pevent_init() freed the private data, which its caller then
freed again.  A failing pt_sb_alloc_decoder() leaked everything the private
data refers to.
---
 sideband/src/pt_sb_pevent.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..f15afab 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -312,34 +312,24 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->next = (uint8_t *) buffer;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
-	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+	if (errcode < 0)
 		return errcode;
-	}
 
 	pev_config_init(&priv->pev);
 	priv->pev.sample_type = config->sample_type;
@@ -1782,9 +1772,11 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 	if (!priv)
 		return -pte_nomem;
 
+	memset(priv, 0, sizeof(*priv));
+
 	errcode = pt_sb_pevent_init(priv, pev);
 	if (errcode < 0) {
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 		return errcode;
 	}
 
@@ -1798,7 +1790,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 0008ab2536d85d59b7bbdf1a21a562324dcd8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 33/73] fix: sideband: do not map a truncated filename below
 the sysroot

---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index f15afab..bf6f072 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1229,7 +1229,7 @@ static int pt_sb_pevent_map(struct pt_sb_session *session,
 		/* Prepend the sysroot to normal files. */
 		errcode = snprintf(buffer, sizeof(buffer), "%s%s", sysroot,
 				   filename);
-		if (errcode < 0)
+		if (errcode < 0 || (int) sizeof(buffer) <= errcode)
 			return -pte_overflow;
 
 		filename = buffer;
-- 
2.43.0


From ac201940124a68687fc60dc256c1a99b0dc125b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 34/73] fix: sideband: saturate record times for negative tsc
 offsets

A time that overflowed when subtracting a negative offset wrapped around and
the record was applied immediately.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index bf6f072..9bd3782 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -393,17 +393,16 @@ static int pt_sb_pevent_fetch(uint64_t *ptsc, struct pt_sb_pevent_priv *priv)
 	 */
 	offset = priv->tsc_offset;
 	tsc = event->sample.tsc;
-	if (offset <= tsc)
-		tsc -= offset;
-	else {
-		if (0ll <= (int64_t) offset)
+	if (0ll <= (int64_t) offset) {
+		if (offset <= tsc)
+			tsc -= offset;
+		else
 			tsc = 0ull;
-		else {
-			if (tsc <= offset)
-				tsc -= offset;
-			else
-				tsc = UINT64_MAX;
-		}
+	} else {
+		if (tsc < offset)
+			tsc -= offset;
+		else
+			tsc = UINT64_MAX;
 	}
 
 	/* We update the event record's timestamp, as well, so we will print the
-- 
2.43.0


From 735521b84875798daeafe54e486eb952bf8f96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 35/73] fix: sideband: use the location of trigger events

A trigger in user code was treated as an unknown location, at which a pending
context switch is applied.
---
 sideband/src/pt_sb_pevent.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 9bd3782..d58e757 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1612,6 +1612,15 @@ static int ploc_from_event(enum pt_sb_pevent_loc *loc,
 
 		break;
 #endif
+
+#if (LIBIPT_VERSION >= 0x202)
+	case ptev_trig:
+		if (!event->ip_suppressed)
+			return ploc_from_ip(loc, priv,
+					    event->variant.trig.ip);
+
+		break;
+#endif
 	}
 
 	*loc = ploc_unknown;
-- 
2.43.0


From e6b830ad19adff337504d70b84a7448a6fde6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 36/73] fix: sideband: report and print offsets into the
 sideband file

The offset was relative to the begin of the loaded part of the file.
---
 sideband/internal/include/pt_sb_pevent.h | 3 +++
 sideband/src/pt_sb_pevent.c              | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sideband/internal/include/pt_sb_pevent.h b/sideband/internal/include/pt_sb_pevent.h
index 328e2e6..adf4155 100644
--- a/sideband/internal/include/pt_sb_pevent.h
+++ b/sideband/internal/include/pt_sb_pevent.h
@@ -100,6 +100,9 @@ struct pt_sb_pevent_priv {
 	/* The begin and end of the sideband data in memory. */
 	uint8_t *begin, *end;
 
+	/* The offset of @begin in the sideband file. */
+	uint64_t offset;
+
 	/* The position of the current and the next record in the sideband
 	 * buffer.
 	 *
diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index d58e757..8e74679 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -155,7 +155,7 @@ static int pt_sb_pevent_error(const struct pt_sb_session *session, int errcode,
 			return -pte_internal;
 
 		filename = priv->filename;
-		offset = (uint64_t) (int64_t) (pos - begin);
+		offset = priv->offset + (uint64_t) (int64_t) (pos - begin);
 	}
 
 	return pt_sb_error(session, errcode, filename, offset);
@@ -310,6 +310,7 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->begin = (uint8_t *) buffer;
 	priv->end = (uint8_t *) buffer + size;
 	priv->next = (uint8_t *) buffer;
+	priv->offset = config->begin;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0)
@@ -851,7 +852,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 	switch (flags & (ptsbp_filename | ptsbp_file_offset)) {
 	case ptsbp_filename | ptsbp_file_offset:
 		fprintf(stream, "%s:%016" PRIx64 "  ", filename,
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 
 	case ptsbp_filename:
@@ -860,7 +861,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 
 	case ptsbp_file_offset:
 		fprintf(stream, "%016" PRIx64 "  ",
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 	}
 
-- 
2.43.0


From 8c0b2e36e501dc6bab3a845856bcc88fa631f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 37/73] fix: report a failed initialization in pt_iscache_alloc

---
 libipt/src/pt_image_section_cache.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..de0ea40 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -852,8 +852,14 @@ struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 	struct pt_image_section_cache *iscache;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (!iscache)
+		return NULL;
+
+	if (pt_iscache_init(iscache, name) < 0) {
+		free(iscache->name);
+		free(iscache);
+		return NULL;
+	}
 
 	return iscache;
 }
-- 
2.43.0


From c8497d98482e12792af43f27932fe6140b1cd3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 38/73] fix: report a failed name allocation in pt_image_alloc

---
 libipt/src/pt_image.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 4556610..7f5b18f 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -113,8 +113,14 @@ struct pt_image *pt_image_alloc(const char *name)
 	struct pt_image *image;
 
 	image = malloc(sizeof(*image));
-	if (image)
-		pt_image_init(image, name);
+	if (!image)
+		return NULL;
+
+	pt_image_init(image, name);
+	if (name && !image->name) {
+		free(image);
+		return NULL;
+	}
 
 	return image;
 }
-- 
2.43.0


From f334ce1bf2f96590b57d3a5d76ccfcbf4259fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 39/73] fix: report sections that could not be copied into a
 sideband process image

---
 sideband/src/pt_sb_pevent.c  | 7 ++++++-
 sideband/src/pt_sb_session.c | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 8e74679..b71b3fd 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1090,7 +1090,12 @@ static int pt_sb_pevent_fork(struct pt_sb_session *session,
 		return -pte_internal;
 
 	/* Initialize the child's image with its parent's. */
-	return pt_image_copy(image, pimage);
+	errcode = pt_image_copy(image, pimage);
+	if (errcode < 0)
+		return errcode;
+
+	/* Sections that could not be copied would be missing silently. */
+	return errcode ? -pte_nomem : 0;
 }
 
 static int pt_sb_pevent_exec(struct pt_sb_session *session,
diff --git a/sideband/src/pt_sb_session.c b/sideband/src/pt_sb_session.c
index 1a8e043..4ebd70d 100644
--- a/sideband/src/pt_sb_session.c
+++ b/sideband/src/pt_sb_session.c
@@ -155,9 +155,11 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 		return -pte_nomem;
 
 	errcode = pt_image_copy(context->image, kernel);
-	if (errcode < 0) {
+	if (errcode) {
 		(void) pt_sb_ctx_put(context);
-		return errcode;
+
+		/* Sections that could not be copied would be missing silently. */
+		return (errcode < 0) ? errcode : -pte_nomem;
 	}
 
 	context->next = session->contexts;
-- 
2.43.0


From 35e81e096421e503d0b9199998f6e79ef960300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 40/73] fix: report a file that cannot be opened when tracking
 a process' ABI

---
 sideband/src/pt_sb_pevent.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index b71b3fd..7d32613 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -49,6 +49,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 #include "pt_sb_file.h"
 #include "pt_compiler.h"
 
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -174,8 +175,10 @@ static int pt_sb_pevent_track_abi(struct pt_sb_context *context,
 		return 0;
 
 	file = fopen(filename, "rb");
-	if (!file)
-		return 0;
+	if (!file) {
+		/* A missing file is diagnosed when we map it. */
+		return (errno == ENOENT) ? 0 : -pte_bad_file;
+	}
 
 	abi = elf_get_abi(file);
 
-- 
2.43.0


From df5526db7b5c8818297aa14f665549b3191821f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 41/73] fix: reset ptdump's last-ip on PSB and OVF

Like the library, reconstruct IPs after PSB and OVF from zero instead of the
last IP before.
---
 ptdump/src/ptdump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a2daba6..58caef9 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1077,6 +1077,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_psb:
 		print_field(buffer->opcode, "psb");
 
+		/* IP compression starts over at PSB. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		if (options->track_time) {
 			int errcode;
 
@@ -1104,6 +1107,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_ovf:
 		print_field(buffer->opcode, "ovf");
 
+		/* IP compression starts over after an overflow. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		if (options->track_time) {
 #if (LIBIPT_VERSION >= 0x201)
 			if (options->keep_tcal_on_ovf) {
-- 
2.43.0


From 80026fd1fc365bc53f852093455bc04957e835ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 42/73] fix: arm the SKL168 workaround in the event decoder

Time calibration checks for wrongly dropped CYC packets before PSB if told about
the PSB.  The packet dumper did this but the event decoder did not.
---
 libipt/src/pt_event_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index cd5c332..bb84182 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1312,6 +1312,10 @@ static int pt_evt_decode_psb(struct pt_event_decoder *decoder)
 	if (pt_evq_pending(&decoder->evq, UINT32_MAX))
 		return -pte_bad_context;
 
+	errcode = pt_tcal_update_psb(&decoder->tcal, pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	pt_last_ip_init(&decoder->ip);
 	decoder->enabled = 0;
 
-- 
2.43.0


From 9055b4db24698995fff1dc29584374d54b679adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 43/73] fix: use the right line and increment from yasm's %line
 in pttc

The line number and the increment were swapped.  It worked only for "%line 1+1",
i.e. as long as the source did not use macros, conditionals, or includes.  With
those, directives were silently dropped or processed more than once.
---
 pttc/src/yasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 2284b44..4321dda 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -817,7 +817,7 @@ static int yasm_advance_next_line(struct yasm *y)
 			 * filename, if necessary.
 			 */
 			filename[FILENAME_MAX-1] = 0;
-			st_set_file(y->st_asm, filename, asm_line, asm_inc);
+			st_set_file(y->st_asm, filename, asm_inc, asm_line);
 			continue;
 		}
 #undef asstr
-- 
2.43.0


From ff71760b1b56256b2f28d7871beaed44aa19b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 44/73] fix: do not advance the source line on continued lst
 lines in pttc

Yasm splits opcodes of more than nine bytes over several lst lines.  Pttc advanced
the source line for each of them and thus processed the directives up to the next
%line directive more than once.
---
 pttc/include/yasm.h |  3 +++
 pttc/src/yasm.c     | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pttc/include/yasm.h b/pttc/include/yasm.h
index bdabb9a..b47436d 100644
--- a/pttc/include/yasm.h
+++ b/pttc/include/yasm.h
@@ -183,6 +183,9 @@ struct yasm {
 	/* Current line number in the lstfile.  */
 	int lst_curr_line;
 
+	/* The current line in the lstfile is continued on the next line.  */
+	int lst_continued;
+
 	/* The list of labels found in the lstfile.  */
 	struct label *l;
 };
diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 4321dda..aabf7c6 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -785,6 +785,20 @@ int yasm_lookup_label(const struct yasm *y, uint64_t *addr,
 	return l_lookup(y->l, addr, labelname);
 }
 
+/* Check if @line in the yasm .lst file is continued on the next line.
+ *
+ * Yasm splits long opcodes and marks all but the last line with a '-'.
+ */
+static int lst_is_continued(const char *line)
+{
+	char mark;
+
+	if (sscanf(line, "%*d %*8[0-9A-F] %*[0-9A-F]%c", &mark) != 1)
+		return 0;
+
+	return mark == '-';
+}
+
 static int yasm_advance_next_line(struct yasm *y)
 {
 	char s[FILENAME_MAX+1];
@@ -822,6 +836,16 @@ static int yasm_advance_next_line(struct yasm *y)
 		}
 #undef asstr
 #undef tostr
+		/* if the opcode of the previous line did not fit into one lst
+		 * line, the current lst line continues it and does not
+		 * correspond to another line in the source file.
+		 */
+		if (y->lst_continued) {
+			y->lst_continued = lst_is_continued(s);
+			continue;
+		}
+		y->lst_continued = lst_is_continued(s);
+
 		/* if line number or increment in the previous line
 		 * directive is <= 0, the current lst line has no
 		 * corresponding line in the source file.
-- 
2.43.0


From e7daea935778c977c5607d15b03d2d2a051d4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 45/73] fix: find labels on a line of their own in pttc

The name of a label on a line of its own was lost when searching for its address:
it was taken from the buffer into which the following lines had been read.
Also do not skip labels on the lines up to and including the one with the address
and do not mistake a label that starts with hex digits for an address.
---
 pttc/src/yasm.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index aabf7c6..1fb4dde 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -29,6 +29,7 @@
 
 #include "errcode.h"
 #include "file.h"
+#include "parse.h"
 #include "util.h"
 #include "yasm.h"
 
@@ -262,8 +263,9 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 		return -err_no_org_directive;
 
 	for (i = 0; i < t->n; i++) {
-		char *tmp;
+		char *tmp, label[l_max];
 		uint64_t addr;
+		size_t j;
 
 		errcode = text_line(t, line, sizeof(line), i);
 		if (errcode < 0)
@@ -335,18 +337,34 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 
 		/* there was a label so now an address needs to
 		 * be found.
+		 *
+		 * we overwrite @line while looking for it but we must not
+		 * skip any line as it may contain another label.
 		 */
+		if ((size_t) l_max <= strnlen(tmp, (size_t) l_max)) {
+			errcode = -err_label_name;
+			goto error;
+		}
+
+		memcpy(label, tmp, strlen(tmp) + 1);
+
 		errcode = -err_label_addr;
-		for (i += 1; i < t->n; i++) {
+		for (j = i + 1; j < t->n; j++) {
+			char opcode[2];
 			int errcode_text;
 
-			errcode_text = text_line(t, line, sizeof(line), i);
+			errcode_text = text_line(t, line, sizeof(line), j);
 			if (errcode_text < 0) {
 				errcode = errcode_text;
 				break;
 			}
-			if (sscanf(line, "%*d %" PRIx64 " %*x %*s", &addr)
-			    == 1) {
+
+			/* the label is at the end of its section.  */
+			if (strstr(line, key_section))
+				break;
+
+			if (sscanf(line, "%*d %" PRIx64 " %1[0-9A-F<]", &addr,
+				   opcode) == 2) {
 				uint64_t laddr;
 
 				laddr = addr + base_addr;
@@ -355,12 +373,12 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 					break;
 				}
 
-				errcode = l_append(l, tmp, laddr);
+				errcode = l_append(l, label, laddr);
 				break;
 			}
 		}
 		if (errcode == -err_label_addr)
-			fprintf(stderr, "label '%s' has no address\n", tmp);
+			fprintf(stderr, "label '%s' has no address\n", label);
 
 		if (errcode < 0)
 			goto error;
-- 
2.43.0


From 4c88311c299c29876f9ab54942c5c07f65aa7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 46/73] fix: accept decimal section addresses in pttc

The start and vstart attributes of a section were parsed as hex numbers even if they
were given as decimal numbers, resulting in wrong label and mapping addresses.
---
 pttc/src/yasm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 1fb4dde..fef0537 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -84,13 +84,15 @@ static int parse_section_label(struct label *l, const char *name,
 {
 	uint64_t addr;
 	char *value;
+	int errcode;
 
 	value = strtok(NULL, " ]");
 	if (!value)
 		return -err_section_attribute_no_value;
 
-	if (sscanf(value, "%" PRIx64, &addr) != 1)
-		return -err_parse_int;
+	errcode = str_to_uint64(value, &addr, 0);
+	if (errcode < 0)
+		return errcode;
 
 	return add_section_label(l, name, attribute, addr, NULL);
 }
-- 
2.43.0


From d323f67f76295b3772562f330687d69ce45c346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 47/73] fix: count all bytes of a section in pttc

The section length did not account for leading zero bytes of an opcode, for opcodes
of more than eight bytes, and for bytes that are not listed due to repetition.
---
 pttc/src/yasm.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index fef0537..25f02db 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -223,7 +223,8 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 		 * this must be last; it destroys @line.
 		 */
 		if (length) {
-			uint64_t value, size;
+			uint64_t value, addr;
+			size_t digits;
 
 			tmp = strtok(line, " ");
 			if (!tmp)
@@ -239,7 +240,7 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 				continue;
 
 			/* we expect an address. */
-			errcode = str_to_uint64(tmp, &value, 16);
+			errcode = str_to_uint64(tmp, &addr, 16);
 			if (errcode < 0)
 				continue;
 
@@ -247,17 +248,18 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 			if (!tmp)
 				continue;
 
-			/* we expect an opcode. */
-			errcode = str_to_uint64(tmp, &value, 16);
-			if (errcode < 0)
-				continue;
+			/* we expect an opcode, two digits per byte. */
+			digits = strspn(tmp, "0123456789ABCDEF");
 
-			/* we got an opcode - let's compute it's size. */
-			for (size = 0; value != 0; value >>= 8)
-				size += 1;
+			/* update the section_<name>_length label.
+			 *
+			 * the address covers bytes that are not listed.  it is
+			 * not updated for the continuation of an opcode.
+			 */
+			if (length->addr < addr)
+				length->addr = addr;
 
-			/* update the section_<name>_length label. */
-			length->addr += size;
+			length->addr += digits / 2;
 		}
 	}
 
-- 
2.43.0


From a8432fd150250501bcd28d935499220aae71426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 48/73] fix: do not shift by 64 when masking labels in pttc

The value of %label.8 is the full address, not zero.
---
 pttc/src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index c88e041..59b19b7 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -501,7 +501,9 @@ static int p_gen_expfile(struct parser *p)
 					goto error;
 				}
 
-				addr &= (1ull << (n << 3)) - 1ull;
+				if (n < 8)
+					addr &= (1ull << (n << 3)) - 1ull;
+
 				line = endptr;
 
 				qmark_size = (int) (8 - n);
-- 
2.43.0


From 4a47e875bc02b724adda1e26d533d57b72272686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 49/73] fix: fail on a bad pip modifier in pttc

The error was printed but the directive was silently dropped.
---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 59b19b7..feba6a1 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -1425,7 +1425,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			else {
 				yasm_print_err(p->y, "pip: parsing failed",
 					       -err_parse_trailing_tokens);
-				return errcode;
+				return -err_parse_trailing_tokens;
 			}
 		}
 	} else if (strcmp(directive, "tsc") == 0) {
-- 
2.43.0


From 4855cffedb657ddc100541ce1a8be7a9e87b5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 50/73] fix: reject negative tma arguments in pttc

---
 pttc/src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index feba6a1..defb7c8 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -3470,7 +3470,7 @@ int parse_tma(uint16_t *ctc, uint16_t *fc, char *payload)
 	if (payload == endptr || *endptr != '\0')
 		return -err_parse_int;
 
-	if (i > 0xffffl)
+	if (i < 0 || i > 0xffffl)
 		return -err_parse_int_too_big;
 
 	*ctc = (uint16_t)i;
@@ -3483,7 +3483,7 @@ int parse_tma(uint16_t *ctc, uint16_t *fc, char *payload)
 	if (payload == endptr || *endptr != '\0')
 		return -err_parse_int;
 
-	if (i > 0xffffl)
+	if (i < 0 || i > 0xffffl)
 		return -err_parse_int_too_big;
 
 	*fc = (uint16_t)i;
-- 
2.43.0


From e054059596e9a418c7c38e8ce153fb1e9fae570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 51/73] fix: accept c15 and reject malformed c-states in pttc

The states and sub-states range from 0 to 15.  Excess characters were silently
ignored and big numbers were truncated.
---
 pttc/src/parse.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index defb7c8..6301482 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -785,14 +785,17 @@ static int parse_mwait(uint32_t *hints, uint32_t *ext, char *payload)
 static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 {
 	unsigned int maj, min;
-	int matches;
+	int matches, maj_end, min_end;
 
 	if (!input)
 		return -err_parse_no_args;
 
 	maj = 0;
 	min = 0;
-	matches = sscanf(input, " c%u.%u", &maj, &min);
+	maj_end = 0;
+	min_end = 0;
+	matches = sscanf(input, " c%2u%n.%2u%n", &maj, &maj_end, &min,
+			 &min_end);
 	switch (matches) {
 	default:
 		return -err_parse;
@@ -804,15 +807,20 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!sub_state)
 			return -err_parse_c_state_sub;
 
-		if (0xf <= min)
+		if (0xf < min)
 			return -err_parse_c_state_invalid;
 
+		maj_end = min_end;
+
 		fallthrough;
 	case 1:
 		if (!state)
 			return -err_internal;
 
-		if (0xf <= maj)
+		if (0xf < maj)
+			return -err_parse_c_state_invalid;
+
+		if (input[maj_end])
 			return -err_parse_c_state_invalid;
 
 		break;
-- 
2.43.0


From 12287b26ad2259b5386e48196d448b16a05665b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 52/73] fix: parse the right pevent-sample_type argument in
 pttc

A numeric sample type that is not the first argument was looked for in the first
argument.
---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 6301482..97b37ef 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -2741,7 +2741,7 @@ static int p_process_sb(struct parser *p)
 				uint64_t value;
 				int errcode;
 
-				errcode = parse_uint64(&value, payload);
+				errcode = str_to_uint64(token, &value, 0);
 				if (errcode < 0) {
 					yasm_print_err(p->y, token, errcode);
 					return errcode;
-- 
2.43.0


From 9ccfa509b70e7860b6622c5ff1d2d6bdd25db03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 53/73] fix: diagnose a missing --cpu argument in pttc

---
 pttc/src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pttc/src/main.c b/pttc/src/main.c
index 09b676b..e67b359 100644
--- a/pttc/src/main.c
+++ b/pttc/src/main.c
@@ -74,6 +74,11 @@ int main(int argc, char *argv[])
 		}
 		if (strcmp(arg, "--cpu") == 0) {
 			arg = argv[i++];
+			if (!arg) {
+				fprintf(stderr, "%s: --cpu: missing argument.\n",
+					prog);
+				return 1;
+			}
 
 			if (strcmp(arg, "none") == 0) {
 				memset(&options.cpu, 0, sizeof(options.cpu));
-- 
2.43.0


From c545030527b5f8398850139b3e3aa8e8ff23ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 54/73] fix: reject overly long tnt payloads in pttc

The number of bits wrapped at 256.
---
 pttc/src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 97b37ef..0b60d8a 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -3305,6 +3305,10 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 		payload++;
 		if (isspace(c) || c == '.')
 			continue;
+
+		if (*size >= 64)
+			return -err_parse_int_too_big;
+
 		*size += 1;
 		*tnt <<= 1;
 		switch (c) {
-- 
2.43.0


From 00373b12baf756363a9fa6ea99e45f9061d002a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 55/73] fix: initialize the vector of unknown cfe types in pttc

---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 0b60d8a..6ee136e 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -967,6 +967,7 @@ static int parse_cfe(const char **input, const struct parser *p,
 	}
 
 	packet->type = (enum pt_cfe_type) type;
+	packet->vector = 0;
 
 	status = parse_token(input, ":");
 	if (status != 0) {
@@ -994,7 +995,6 @@ static int parse_cfe(const char **input, const struct parser *p,
 		case pt_cfe_vmexit:
 		case pt_cfe_shutdown:
 		case pt_cfe_uiret:
-			packet->vector = 0;
 			break;
 		}
 	} else {
-- 
2.43.0


From c953953ce55a86b9a89c2a264a68a444a3880936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 56/73] fix: reject excess directive arguments in pttc

Excess characters and arguments were silently ignored for some of the directives.
---
 pttc/src/parse.c | 120 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 120 insertions(+)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 6ee136e..1a6f80d 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -751,6 +751,39 @@ static int parse_uint_64(const char **pinput, uint64_t *uint)
 	return 0;
 }
 
+/* Check that there are no more tokens left in the current payload.
+ *
+ * This continues a strtok() sequence.
+ *
+ * Returns zero if there are none, a negative integer otherwise.
+ */
+static int parse_no_more_tokens(void)
+{
+	if (strtok(NULL, " ,"))
+		return -err_parse_trailing_tokens;
+
+	return 0;
+}
+
+/* Check that there is nothing left in @input.
+ *
+ * Returns zero on success.
+ * Returns a negative integer on error.
+ */
+static int parse_end(const char **input)
+{
+	int status;
+
+	status = parse_whitespace(input);
+	if (status < 0)
+		return status;
+
+	if (**input)
+		return -err_parse_trailing_tokens;
+
+	return 0;
+}
+
 static int parse_mwait(uint32_t *hints, uint32_t *ext, char *payload)
 {
 	int errcode;
@@ -1194,6 +1227,14 @@ static int parse_trig(const char **input, const struct parser *p,
 
 			continue;
 		}
+
+		status = yasm_print_err(p->y, "trig: bad argument, expected "
+					"\"ip\", \"mult\" or \"icnt\"",
+					-err_parse);
+		if (status < 0)
+			return status;
+
+		return 1;
 	}
 
 	return 0;
@@ -1384,6 +1425,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		cpl = (const char *) payload;
 		errcode = parse_mode_exec(&cpl, p,
 					  &packet.payload.mode.bits.exec);
+		if (errcode == 0)
+			errcode = parse_end(&cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y,
@@ -1435,9 +1479,18 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 					       -err_parse_trailing_tokens);
 				return -err_parse_trailing_tokens;
 			}
+
+			errcode = parse_no_more_tokens();
+			if (errcode < 0) {
+				yasm_print_err(p->y, "pip: parsing failed",
+					       errcode);
+				return errcode;
+			}
 		}
 	} else if (strcmp(directive, "tsc") == 0) {
 		errcode = parse_uint64(&packet.payload.tsc.tsc, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "tsc: parsing failed", errcode);
 			return errcode;
@@ -1445,6 +1498,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.type = ppt_tsc;
 	} else if (strcmp(directive, "cbr") == 0) {
 		errcode = parse_uint8(&packet.payload.cbr.ratio, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "cbr: parsing cbr failed",
 				       errcode);
@@ -1462,6 +1517,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.type = ppt_tma;
 	} else if (strcmp(directive, "mtc") == 0) {
 		errcode = parse_uint8(&packet.payload.mtc.ctc, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "mtc: parsing mtc failed",
 				       errcode);
@@ -1470,6 +1527,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.type = ppt_mtc;
 	} else if (strcmp(directive, "cyc") == 0) {
 		errcode = parse_uint64(&packet.payload.cyc.value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "cyc: parsing cyc failed",
 				       errcode);
@@ -1478,6 +1537,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.type = ppt_cyc;
 	} else if (strcmp(directive, "vmcs") == 0) {
 		errcode = parse_uint64(&packet.payload.vmcs.base, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "vmcs: parsing failed", errcode);
 			return errcode;
@@ -1485,6 +1546,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.type = ppt_vmcs;
 	} else if (strcmp(directive, "mnt") == 0) {
 		errcode = parse_uint64(&packet.payload.mnt.payload, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, "mnt: parsing failed", errcode);
 			return errcode;
@@ -1534,6 +1597,13 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 					       -err_parse_trailing_tokens);
 				return -err_parse_trailing_tokens;
 			}
+
+			errcode = parse_no_more_tokens();
+			if (errcode < 0) {
+				yasm_print_err(p->y, "pwre: parsing failed",
+					       errcode);
+				return errcode;
+			}
 		}
 	} else if (strcmp(directive, "pwrx") == 0) {
 		char *token;
@@ -1575,6 +1645,12 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 				       errcode);
 			return errcode;
 		}
+
+		errcode = parse_no_more_tokens();
+		if (errcode < 0) {
+			yasm_print_err(p->y, "pwrx: parsing failed", errcode);
+			return errcode;
+		}
 	} else if (strcmp(directive, "ptw") == 0) {
 		char *token;
 
@@ -1616,12 +1692,22 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			}
 
 			packet.payload.ptw.ip = 1;
+
+			errcode = parse_no_more_tokens();
+			if (errcode < 0) {
+				yasm_print_err(p->y, "ptw: parse error",
+					       errcode);
+				return errcode;
+			}
 		}
 	} else if (strcmp(directive, "cfe") == 0) {
 		const char *cpl;
 
 		cpl = (const char *) payload;
 		errcode = parse_cfe(&cpl, p, &packet.payload.cfe);
+		if (errcode == 0)
+			errcode = parse_end(&cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "cfe: parsing failed",
@@ -1638,6 +1724,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		cpl = (const char *) payload;
 		errcode = parse_evd(&cpl, p, &packet.payload.evd);
+		if (errcode == 0)
+			errcode = parse_end(&cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "evd: parsing failed",
@@ -1653,6 +1742,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		uint8_t value;
 
 		errcode = parse_uint8(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -1663,6 +1754,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		uint16_t value;
 
 		errcode = parse_uint16(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -1673,6 +1766,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		uint32_t value;
 
 		errcode = parse_uint32(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -1683,6 +1778,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		uint64_t value;
 
 		errcode = parse_uint64(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -1694,6 +1791,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		cpl = (const char *) payload;
 		errcode = parse_trig(&cpl, p, &packet.payload.trig);
+		if (errcode == 0)
+			errcode = parse_end(&cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "trig: parsing failed",
@@ -2656,6 +2756,12 @@ static int p_process_sb(struct parser *p)
 
 		src = strtok(NULL, " ");
 
+		if (parse_no_more_tokens() < 0) {
+			yasm_print_err(p->y, "primary - unexpected argument",
+				       -err_parse_trailing_tokens);
+			return -err_parse_trailing_tokens;
+		}
+
 		return sb_open(p, fmt, src, "primary");
 	} else if (strcmp(directive, "secondary") == 0) {
 		char *fmt, *src;
@@ -2669,12 +2775,20 @@ static int p_process_sb(struct parser *p)
 
 		src = strtok(NULL, " ");
 
+		if (parse_no_more_tokens() < 0) {
+			yasm_print_err(p->y, "secondary - unexpected argument",
+				       -err_parse_trailing_tokens);
+			return -err_parse_trailing_tokens;
+		}
+
 		return sb_open(p, fmt, src, "secondary");
 	} else if (strcmp(directive, "raw-8") == 0) {
 		uint8_t value;
 		int errcode;
 
 		errcode = parse_uint8(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -2686,6 +2800,8 @@ static int p_process_sb(struct parser *p)
 		int errcode;
 
 		errcode = parse_uint16(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -2697,6 +2813,8 @@ static int p_process_sb(struct parser *p)
 		int errcode;
 
 		errcode = parse_uint32(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
@@ -2708,6 +2826,8 @@ static int p_process_sb(struct parser *p)
 		int errcode;
 
 		errcode = parse_uint64(&value, payload);
+		if (errcode >= 0)
+			errcode = parse_no_more_tokens();
 		if (errcode < 0) {
 			yasm_print_err(p->y, payload, errcode);
 			return errcode;
-- 
2.43.0


From 2eddfa32a8fa0383ddf285a733972a21cf23767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 57/73] fix: reject out of range directive arguments in pttc

The packet encoder silently truncates them.
---
 pttc/src/parse.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 1a6f80d..ada39c4 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -999,6 +999,9 @@ static int parse_cfe(const char **input, const struct parser *p,
 		return 1;
 	}
 
+	if (0x1f < type)
+		return -err_parse_int_too_big;
+
 	packet->type = (enum pt_cfe_type) type;
 	packet->vector = 0;
 
@@ -1101,6 +1104,9 @@ static int parse_evd(const char **input, const struct parser *p,
 		return 1;
 	}
 
+	if (0x3f < type)
+		return -err_parse_int_too_big;
+
 	packet->type = (enum pt_evd_type) type;
 
 	status = parse_token(input, ":");
@@ -1495,6 +1501,13 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			yasm_print_err(p->y, "tsc: parsing failed", errcode);
 			return errcode;
 		}
+
+		if (packet.payload.tsc.tsc >> 56) {
+			yasm_print_err(p->y, "tsc: parsing failed",
+				       -err_parse_int_too_big);
+			return -err_parse_int_too_big;
+		}
+
 		packet.type = ppt_tsc;
 	} else if (strcmp(directive, "cbr") == 0) {
 		errcode = parse_uint8(&packet.payload.cbr.ratio, payload);
@@ -1683,6 +1696,13 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			return errcode;
 		}
 
+		if (!packet.payload.ptw.plc &&
+		    (UINT32_MAX < packet.payload.ptw.payload)) {
+			yasm_print_err(p->y, "ptw: bad payload",
+				       -err_parse_int_too_big);
+			return -err_parse_int_too_big;
+		}
+
 		token = strtok(NULL, " ");
 		if (token) {
 			if (strcmp(token, "ip") != 0) {
@@ -3445,6 +3465,45 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 	return 0;
 }
 
+/* Check that @ip is no bigger than specified in @ipc.
+ *
+ * Returns zero if it is not, a negative error code otherwise.
+ */
+static int check_ip(uint64_t ip, enum pt_ip_compression ipc)
+{
+	uint64_t max;
+
+	max = UINT64_MAX;
+	switch (ipc) {
+	case pt_ipc_suppressed:
+	case pt_ipc_full:
+		break;
+
+	case pt_ipc_update_16:
+		max = 0xffffull;
+		break;
+
+	case pt_ipc_update_32:
+		max = 0xffffffffull;
+		break;
+
+	case pt_ipc_sext_48:
+		/* we also accept the sign-extended address.  */
+		if ((ip >> 47) == 0x1ffffull)
+			return 0;
+
+		fallthrough;
+	case pt_ipc_update_48:
+		max = 0xffffffffffffull;
+		break;
+	}
+
+	if (max < ip)
+		return -err_parse_int_too_big;
+
+	return 0;
+}
+
 static int ipc_from_uint32(enum pt_ip_compression *ipc, uint32_t val)
 {
 	switch (val) {
@@ -3504,6 +3563,10 @@ int parse_ip(struct parser *p, uint64_t *ip, enum pt_ip_compression *ipc,
 		errcode = str_to_uint64(payload, ip, 0);
 		if (errcode < 0)
 			return errcode;
+
+		errcode = check_ip(*ip, *ipc);
+		if (errcode < 0)
+			return errcode;
 	}
 
 	/* no more tokens left.  */
-- 
2.43.0


From 984dda546a2d770607e86709727f5c6bece5f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 58/73] fix: event decoder: keep track of the last IP when
 skipping IP packets

The workarounds for APL11, APL12, BDM70, and SKD010 skip IP packets without
updating the last IP, so later compressed IPs were expanded wrongly.
---
 libipt/src/pt_event_decoder.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index bb84182..bfbce4b 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -667,10 +667,19 @@ static int pt_evt_header_fup(struct pt_event_decoder *decoder,
 	}
 
 	decoder->enabled = enabled;
+
+	/* We need to update the last-ip even if tracing is disabled.  The
+	 * following IP packet may be compressed based on it.
+	 */
+	errcode = pt_last_ip_update_ip(&decoder->ip, packet, config);
+	if (errcode < 0)
+		return errcode;
+
+	/* If tracing is disabled, there is no IP for status events. */
 	if (!enabled)
-		return 0;
+		decoder->ip.suppressed = 1;
 
-	return pt_last_ip_update_ip(&decoder->ip, packet, config);
+	return 0;
 }
 
 static int pt_evt_header_mode(struct pt_event_decoder *decoder,
@@ -2039,6 +2048,12 @@ static int pt_evt_recover_ovf_disabled(struct pt_event_decoder *decoder,
 	if (!decoder || !pacdec || !packet || !time || !tcal)
 		return -pte_internal;
 
+	/* We skip @packet but later IPs may be compressed based on it. */
+	errcode = pt_last_ip_update_ip(&decoder->ip, &packet->payload.ip,
+				       pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	decoder->event = ev = pt_evq_standalone(&decoder->evq);
 	if (!ev)
 		return -pte_internal;
@@ -2086,6 +2101,13 @@ static int pt_evt_recover_ovf_at_offset(struct pt_event_decoder *decoder,
 		offset -= packet->size;
 
 		switch (packet->type) {
+		case ppt_fup:
+			/* Keep track of the last IP. */
+			errcode = pt_last_ip_update_ip(&decoder->ip,
+						       &packet->payload.ip,
+						       pt_evt_config(decoder));
+			break;
+
 		case ppt_tsc:
 			/* Keep track of time. */
 			errcode = pt_evt_apply_tsc(&decoder->time,
-- 
2.43.0


From e80957bdf4670c27e8ffa6ce071f51c5191967c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 59/73] fix: event decoder: handle transaction aborts in the
 SKD010 workaround

An abort is followed by a FUP and a TIP.  The workaround treated it like other
transaction state changes so the TIP was not reported as an async branch.
---
 libipt/src/pt_event_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index bfbce4b..abb0eed 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2370,7 +2370,8 @@ static int pt_evt_handle_skd010(struct pt_event_decoder *decoder)
 			 */
 			if (mode_tsx.found) {
 				ev = pt_evq_enqueue(&decoder->evq,
-						    evb_fup_bound);
+						    mode_tsx.abrt ?
+						    evb_fup : evb_fup_bound);
 				if (!ev)
 					return -pte_nomem;
 
-- 
2.43.0


From da18e364d82dc01f627ea260b6deae271a8d10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 60/73] fix: block decoder: respect end-of-block options in the
 SKL014 workaround

When the block ended at the user's request, the workaround falsely indicated
that the disable event's location had been reached.
---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2f91e75..a5359a0 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1177,7 +1177,7 @@ static int pt_blk_proceed_skl014(struct pt_block_decoder *decoder,
 		    (insn->iclass == ptic_call)) ||
 		    (decoder->flags.variant.block.end_on_jump &&
 		    (insn->iclass == ptic_jump)))
-			break;
+			return 0;
 	}
 
 	return status;
-- 
2.43.0


From a20e3e35fc8a923e349feeaa9a5c8f79a597535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 61/73] fix: event decoder: keep track of the skipped FUP's IP
 in the APL12 workaround

The FUP is the last packet that is skipped; update the last IP from it.
---
 libipt/src/pt_event_decoder.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index abb0eed..f7d278c 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2095,19 +2095,24 @@ static int pt_evt_recover_ovf_at_offset(struct pt_event_decoder *decoder,
 			if (offset < packet->size)
 				return -pte_internal;
 
-			break;
-		}
-
-		offset -= packet->size;
+			/* We skip the FUP but later IPs may be compressed
+			 * based on it.
+			 */
+			if (packet->type != ppt_fup)
+				return -pte_internal;
 
-		switch (packet->type) {
-		case ppt_fup:
-			/* Keep track of the last IP. */
 			errcode = pt_last_ip_update_ip(&decoder->ip,
 						       &packet->payload.ip,
 						       pt_evt_config(decoder));
+			if (errcode < 0)
+				return errcode;
+
 			break;
+		}
 
+		offset -= packet->size;
+
+		switch (packet->type) {
 		case ppt_tsc:
 			/* Keep track of time. */
 			errcode = pt_evt_apply_tsc(&decoder->time,
-- 
2.43.0


From e5eca75219346e7552a0452bec20c2f81d98e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 62/73] fix: event decoder: a suppressed IP in PSB+ means that
 tracing is disabled

When looking ahead for the FUP in PSB+, the workarounds for SKD010 and APL12
assumed that tracing is enabled if there is one, unlike header decode.
---
 libipt/src/pt_event_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index f7d278c..cd8dfa7 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -246,6 +246,10 @@ static int pt_evt_find_header_fup(struct pt_packet *packet,
 
 		switch (packet->type) {
 		case ppt_fup:
+			/* Tracing is disabled if the IP is suppressed. */
+			if (packet->payload.ip.ipc == pt_ipc_suppressed)
+				break;
+
 			/* Found it. */
 			return 1;
 
-- 
2.43.0


From d7c5214ab704d4dda999ca9b8b3d09369a64f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 63/73] fix: wrap direct branch targets at 4GB outside of
 64-bit mode

A displacement that takes a branch beyond the end of the 32-bit linear address
space continues at its other end.  We continued above 4GB, instead.
---
 libipt/src/pt_ild.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 25fe8cb..b0b28c1 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1480,10 +1480,32 @@ static int pt_instruction_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
 	}
 }
 
+/* Wrap direct branch targets.
+ *
+ * Outside of 64-bit mode, linear addresses are 32 bit.  A branch whose
+ * displacement takes us beyond the end or start of the address space continues
+ * at its other end.
+ */
+static void pt_ild_wrap_branch_target(const struct pt_insn *insn,
+				      struct pt_insn_ext *iext)
+{
+	uint64_t nip, tip;
+
+	if (!iext->variant.branch.is_direct || (insn->mode == ptem_64bit) ||
+	    (UINT32_MAX < insn->ip))
+		return;
+
+	nip = insn->ip + insn->size;
+	tip = nip + (uint64_t) iext->variant.branch.displacement;
+	tip &= UINT32_MAX;
+
+	iext->variant.branch.displacement = (int64_t) (tip - nip);
+}
+
 int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
 {
 	struct pt_ild ild;
-	int size;
+	int errcode, size;
 
 	if (!insn || !iext)
 		return -pte_internal;
@@ -1500,5 +1522,11 @@ int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
 
 	insn->size = (uint8_t) size;
 
-	return pt_instruction_decode(insn, iext, &ild);
+	errcode = pt_instruction_decode(insn, iext, &ild);
+	if (errcode < 0)
+		return errcode;
+
+	pt_ild_wrap_branch_target(insn, iext);
+
+	return 0;
 }
-- 
2.43.0


From dea0ac644a77490f69e8300ca7d8b440f038fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 64/73] fix: do not treat VMCLEAR and VMXON as VMPTRLD

They only differ in the mandatory prefix.  Neither loads the VMCS pointer and
neither generates a VMCS packet so we must not bind VMCS events to them.
---
 libipt/src/pt_ild.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index b0b28c1..68a1847 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1450,9 +1450,11 @@ static int pt_instruction_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
 		return 0;
 
 	case 0xc7:
+		/* With a mandatory prefix, this is VMCLEAR or VMXON. */
 		if (map == PTI_MAP_1 &&
 		    pti_get_modrm_mod(ild) != 3 &&
-		    pti_get_modrm_reg(ild) == 6)
+		    pti_get_modrm_reg(ild) == 6 &&
+		    !ild->osz && !ild->f2 && !ild->f3)
 			iext->iclass = PTI_INST_VMPTRLD;
 
 		return 0;
-- 
2.43.0


From 41872e282cf1f2d9a4f092ccf84234c09ad7c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 65/73] fix: sideband: copy the perf event sample configuration

The decoder kept the user's pointer, which ptxed and ptdump reallocate when
further sample configurations are given after the sideband file.
---
 sideband/src/pt_sb_pevent.c | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 7d32613..f1712ca 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -250,6 +250,9 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x64);
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
+#if (LIBIPT_SB_VERSION >= 0x201)
+	free(priv->pev.sample_config);
+#endif
 	free(priv->begin);
 	free(priv);
 }
@@ -283,6 +286,34 @@ static int pt_sb_pevent_init_path(char **dst, const char *src)
 	return 0;
 }
 
+#if (LIBIPT_SB_VERSION >= 0x201)
+static int pt_sb_pevent_init_sample_config(struct pev_sample_config **dst,
+					   const struct pev_sample_config *src)
+{
+	struct pev_sample_config *copy;
+	size_t size;
+
+	if (!dst)
+		return -pte_internal;
+
+	if (!src) {
+		*dst = NULL;
+		return 0;
+	}
+
+	size = sizeof(*src) + (src->nstypes * sizeof(src->stypes[0]));
+	copy = malloc(size);
+	if (!copy)
+		return -pte_nomem;
+
+	memcpy(copy, src, size);
+
+	*dst = copy;
+
+	return 0;
+}
+#endif /* (LIBIPT_SB_VERSION >= 0x201) */
+
 int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 		      const struct pt_sb_pevent_config *config)
 {
@@ -346,8 +377,12 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->location = ploc_unknown;
 
 #if (LIBIPT_SB_VERSION >= 0x201)
-	if (pev_config_has(config, sample_config))
-		priv->pev.sample_config = config->sample_config;
+	if (pev_config_has(config, sample_config)) {
+		errcode = pt_sb_pevent_init_sample_config(
+			&priv->pev.sample_config, config->sample_config);
+		if (errcode < 0)
+			return errcode;
+	}
 #endif
 
 	return 0;
-- 
2.43.0


From 29ed6b2fd428b24a29dba62a35272240617dc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 66/73] fix: ptxed: fail if the argument of --pt, --raw, --elf,
 or --cpu is missing

They printed an error and exited with status zero.
---
 ptxed/src/ptxed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ptxed/src/ptxed.c b/ptxed/src/ptxed.c
index de1f650..8ab07d0 100644
--- a/ptxed/src/ptxed.c
+++ b/ptxed/src/ptxed.c
@@ -2424,7 +2424,7 @@ extern int main(int argc, char *argv[])
 			if (argc <= i) {
 				fprintf(stderr,
 					"%s: --pt: missing argument.\n", prog);
-				goto out;
+				goto err;
 			}
 			arg = argv[i++];
 
@@ -2458,7 +2458,7 @@ extern int main(int argc, char *argv[])
 			if (argc <= i) {
 				fprintf(stderr,
 					"%s: --raw: missing argument.\n", prog);
-				goto out;
+				goto err;
 			}
 			arg = argv[i++];
 
@@ -2478,7 +2478,7 @@ extern int main(int argc, char *argv[])
 			if (argc <= i) {
 				fprintf(stderr,
 					"%s: --elf: missing argument.\n", prog);
-				goto out;
+				goto err;
 			}
 			arg = argv[i++];
 			base = 0ull;
@@ -2954,7 +2954,7 @@ extern int main(int argc, char *argv[])
 			if (argc <= i) {
 				fprintf(stderr,
 					"%s: --cpu: missing argument.\n", prog);
-				goto out;
+				goto err;
 			}
 			arg = argv[i++];
 
-- 
2.43.0


From 1594d00d344ab5ce2e92eede1fdfafc95b0dddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 67/73] fix: ptxed: do not print an instruction again if there
 is no next one

pt_insn_next() does not provide an instruction if tracing is disabled.  We
printed and counted the previous instruction again or an uninitialized one.
---
 ptxed/src/ptxed.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptxed/src/ptxed.c b/ptxed/src/ptxed.c
index 8ab07d0..36ec7ad 100644
--- a/ptxed/src/ptxed.c
+++ b/ptxed/src/ptxed.c
@@ -1500,6 +1500,16 @@ static void decode_insn(struct ptxed_decoder *decoder,
 					break;
 			}
 
+			/* We may get errors without getting an instruction.
+			 *
+			 * Don't print the previous one again.
+			 */
+#if (LIBIPT_VERSION >= 0x201)
+			insn.iclass = ptic_unknown;
+#else
+			insn.iclass = ptic_error;
+#endif
+
 			status = pt_insn_next(ptdec, &insn, sizeof(insn));
 			if (status < 0) {
 				/* Even in case of errors, we may have succeeded
-- 
2.43.0


From c76ce3ce5ba7bf1f57ffe9dec9f23d54f838c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 68/73] fix: ptxed, ptdump: refuse more than 255 sample
 configurations

The number of sample configurations wrapped around.
---
 ptdump/src/ptdump.c | 3 +++
 ptxed/src/ptxed.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index 58caef9..ddb8e26 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1698,6 +1698,9 @@ static int pt_parse_sample_config(struct pt_sb_pevent_config *pevent,
 	}
 
 	nstypes = sample_config->nstypes;
+	if (nstypes == UINT8_MAX)
+		return -pte_invalid;
+
 	sample_config = realloc(sample_config,
 				sizeof(*sample_config) +
 				((nstypes + 1) *
diff --git a/ptxed/src/ptxed.c b/ptxed/src/ptxed.c
index 36ec7ad..040421f 100644
--- a/ptxed/src/ptxed.c
+++ b/ptxed/src/ptxed.c
@@ -2238,6 +2238,9 @@ static int pt_parse_sample_config(struct pt_sb_pevent_config *pevent,
 	}
 
 	nstypes = sample_config->nstypes;
+	if (nstypes == UINT8_MAX)
+		return -pte_invalid;
+
 	sample_config = realloc(sample_config,
 				sizeof(*sample_config) +
 				((nstypes + 1) *
-- 
2.43.0


From 14740b11d29e9553eb237a3e23aa83c335df324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:40 +0000
Subject: [PATCH 69/73] fix: ptdump, ptxed: refuse file offsets that do not fit
 into a long

An offset of 2^63 or more gives a negative begin, which passes both checks,
and makes the size computation overflow.
---
 ptdump/src/ptdump.c | 2 +-
 ptxed/src/ptxed.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index ddb8e26..e343def 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -396,7 +396,7 @@ static int load_file(uint8_t **buffer, size_t *psize, const char *filename,
 	}
 
 	begin = (long) offset;
-	if (((uint64_t) begin != offset) || (fsize <= begin)) {
+	if ((begin < 0) || ((uint64_t) begin != offset) || (fsize <= begin)) {
 		fprintf(stderr,
 			"%s: bad offset 0x%" PRIx64 " into %s.\n",
 			prog, offset, filename);
diff --git a/ptxed/src/ptxed.c b/ptxed/src/ptxed.c
index 040421f..5fc9805 100644
--- a/ptxed/src/ptxed.c
+++ b/ptxed/src/ptxed.c
@@ -478,7 +478,7 @@ static int load_file(uint8_t **buffer, size_t *psize, const char *filename,
 	}
 
 	begin = (long) offset;
-	if (((uint64_t) begin != offset) || (fsize <= begin)) {
+	if ((begin < 0) || ((uint64_t) begin != offset) || (fsize <= begin)) {
 		fprintf(stderr,
 			"%s: bad offset 0x%" PRIx64 " into %s.\n",
 			prog, offset, filename);
-- 
2.43.0


From 3e99d246dd7133843d5cfdec1712b595e37c0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:40 +0000
Subject: [PATCH 70/73] fix: ptdump: do not cut off the last digit of a time
 delta

A delta consists of a sign and up to 16 digits.
---
 ptdump/src/ptdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index e343def..f254f30 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -137,7 +137,7 @@ struct ptdump_buffer {
 		char id[5];
 
 		/* The tracking information. */
-		char payload[17];
+		char payload[18];
 	} tracking;
 
 	/* A flag telling whether an extended payload is used. */
-- 
2.43.0


From 824a771fed9cf326f9207948403c8576c8be9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 71/73] fix: do not lose all following cycles when a CYC is
 attributed to previous MTC periods

A CYC packet whose payload is attributed entirely to previous MTC periods leaves
the fast counter at zero, so the next MTC did not record that cycles have been
accounted for and every further CYC was attributed to previous MTC periods until
the next TSC.
---
 libipt/internal/include/pt_time.h |  5 +++++
 libipt/src/pt_time.c              | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/libipt/internal/include/pt_time.h b/libipt/internal/include/pt_time.h
index 3b8ba0b..1b733de 100644
--- a/libipt/internal/include/pt_time.h
+++ b/libipt/internal/include/pt_time.h
@@ -77,6 +77,11 @@ struct pt_time {
 
 	/* A flag saying whether we have seen a MTC packet. */
 	uint32_t have_mtc:1;
+
+	/* A flag saying whether we have accounted a CYC packet since we
+	 * cleared @fc.
+	 */
+	uint32_t have_cyc:1;
 };
 
 /* Initialize (or reset) the time. */
diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index d4e57b3..698f866 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -161,6 +161,7 @@ int pt_time_update_tsc(struct pt_time *time,
 	time->tsc = time->base = packet->tsc;
 	time->ctc = 0;
 	time->fc = 0ull;
+	time->have_cyc = 0;
 
 	/* We got the full time; we recover from previous losses. */
 	time->lost_mtc = 0;
@@ -291,11 +292,12 @@ int pt_time_update_mtc(struct pt_time *time,
 	ctc = (uint32_t) packet->ctc << mtc_freq;
 
 	/* Store our CTC value if we have or would have reset FC. */
-	if (time->fc || time->lost_cyc || !have_mtc)
+	if (time->fc || time->have_cyc || time->lost_cyc || !have_mtc)
 		time->ctc_cyc = ctc;
 
 	/* Prepare for the next packet in case we error out below. */
 	time->have_mtc = 1;
+	time->have_cyc = 0;
 	time->fc = 0ull;
 	time->ctc = ctc;
 
@@ -449,7 +451,7 @@ int pt_time_update_cyc(struct pt_time *time,
 
 	cyc = packet->value;
 	fc = time->fc;
-	if (!fc) {
+	if (!fc && !time->have_cyc) {
 		int errcode;
 
 		errcode = pt_time_adjust_cyc(&cyc, time, config, fcr);
@@ -459,6 +461,10 @@ int pt_time_update_cyc(struct pt_time *time,
 
 	fc += (cyc * fcr) >> pt_tcal_fcr_shr;
 
+	/* We may have attributed the entire CYC payload to previous MTC
+	 * periods, in which case @fc is still zero.
+	 */
+	time->have_cyc = 1;
 	time->fc = fc;
 	time->tsc = time->base + fc;
 
-- 
2.43.0


From 6b74380c2d9e17ac2e4617b8ce2d3c4138120db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:56 +0000
Subject: [PATCH 72/73] fix: account for cycles after a TSC that is not
 followed by a TMA

A TSC forgets about the last CTC but not about the CTC at which the fast counter was
cleared.  Without a TMA (e.g. one dropped as corrupted, SKZ84), following CYC packets
were attributed to previous MTC periods.
---
 libipt/src/pt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 698f866..cdbde0a 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -159,7 +159,7 @@ int pt_time_update_tsc(struct pt_time *time,
 	time->have_tma = 0;
 	time->have_mtc = 0;
 	time->tsc = time->base = packet->tsc;
-	time->ctc = 0;
+	time->ctc = time->ctc_cyc = 0;
 	time->fc = 0ull;
 	time->have_cyc = 0;
 
-- 
2.43.0


From 93f3609d0642cd2e649ec9e43c69c9c17ed64c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:37 +0000
Subject: [PATCH 73/73] fix: refuse processor identifications with an empty
 stepping

pt_cpu_parse() accepted "6/61/" as stepping zero, although it refuses
missing numbers everywhere else.
---
 libipt/src/pt_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_cpu.c b/libipt/src/pt_cpu.c
index 1c4ca20..5d340fd 100644
--- a/libipt/src/pt_cpu.c
+++ b/libipt/src/pt_cpu.c
@@ -69,7 +69,7 @@ int pt_cpu_parse(struct pt_cpu *cpu, const char *s)
 		s = endptr + 1;
 
 		stepping = strtol(s, &endptr, 0);
-		if (*endptr != '\0')
+		if (s == endptr || *endptr != '\0')
 			return -pte_invalid;
 
 		if (stepping < 0 || stepping > UCHAR_MAX)
-- 
2.43.0

