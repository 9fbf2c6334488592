From 6aacdbbabf8bbdd62b3880bbc6d7992c438f7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 01/10] fix: linear converter read before data_in when given a
 single input frame

---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From cf5e39e74834488da3a4c7264e7a5c9ed23a2b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 02/10] fix: reject a NaN conversion ratio

---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..3a0948f 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written as a negation so that NaN is bad as well. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From 8eb6fa4a6cb9c0ddc3e9060dc6d5899b637531a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 03/10] fix: report a channel count below 1 instead of aborting

---
 src/samplerate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..01784ff 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,13 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{	if (error)
+			*error = (int) SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+		} ;
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From 0d87c3013481ba798067be60ae521752ce1a3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 04/10] fix: sinc converters failed when given more than
 INT_MAX input samples

---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..d61bd72 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From 06f717b6f81fd00a038b82361a38a275a1c70ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 05/10] fix: sinc buffer was too small at ratios near 1/256

The terminating zeros (half a filter plus 5 samples) have to fit behind two
half filters of live data. They did not at the smallest ratios: multichannel
conversions produced nothing, the tail was cut short, and a ratio that fell
after end_of_input moved data from before the start of the buffer.
---
 src/src_sinc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index d61bd72..7455a04 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -240,10 +240,10 @@ sinc_filter_new (int converter_type, int channels)
 #endif
 		}
 
-		priv->b_len = 3 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
+		priv->b_len = 4 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
-		priv->b_len += 1 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
+		priv->b_len += channels + 5 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
-- 
2.43.0


From 275327d2276baf386b98d80cc08b1d66e0886f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 06/10] fix: sinc tail was lost when end_of_input came with a
 NULL data pointer

---
 src/src_sinc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 7455a04..eab8f07 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1161,7 +1161,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
-	if (data->data_in == NULL)
+	if (data->data_in == NULL && ! data->end_of_input)
 		return SRC_ERR_NO_ERROR ;
 
 	if (filter->b_current == 0)
@@ -1195,7 +1195,8 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (len < 0 || filter->b_end + len > filter->b_len)
 		return SRC_ERR_SINC_PREPARE_DATA_BAD_LEN ;
 
-	memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
+	if (len > 0)
+		memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
 						len * sizeof (filter->buffer [0])) ;
 
 	filter->b_end += len ;
-- 
2.43.0


From de8ee2f520e30f94b5a380cdcf12d4812457cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 07/10] fix: src_callback_read looped forever on input after
 the end of input

---
 src/samplerate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 01784ff..0a68b64 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -211,6 +211,12 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 		if (error != 0)
 			break ;
 
+		if (src_data.input_frames > 0 && src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+		{	/* The callback supplied data after the end of input. */
+			error = SRC_ERR_BAD_SINC_STATE ;
+			break ;
+			} ;
+
 		src_data.data_in += src_data.input_frames_used * state->channels ;
 		src_data.input_frames -= src_data.input_frames_used ;
 
-- 
2.43.0


From 52d7bf169f338f5eac6de9d5f746753c87c9d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 08/10] fix: src_simple dereferenced a NULL SRC_DATA pointer

---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 0a68b64..6855c33 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -418,6 +418,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From 0291fcb6c3e6cf42285bfae0a17ad180fcbf14f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 09/10] fix: sinc dropped filter history that a falling ratio
 still needs

When the buffer contents were moved down only half a filter at the current
ratio was kept before the current sample. After the ratio fell the filter
reached further back and the missing samples were taken as zeros.
---
 src/src_sinc.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index eab8f07..4f1247a 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -67,6 +67,9 @@ typedef struct
 
 	int		b_current, b_end, b_real_end, b_len ;
 
+	/* Samples before b_current kept for when the ratio falls. */
+	int		b_history ;
+
 	/* Sure hope noone does more than 128 channels at once. */
 	double left_calc [MAX_CHANNELS], right_calc [MAX_CHANNELS] ;
 
@@ -240,6 +243,7 @@ sinc_filter_new (int converter_type, int channels)
 #endif
 		}
 
+		priv->b_history = channels * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = 4 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
@@ -1156,7 +1160,7 @@ sinc_multichan_vari_process (SRC_STATE *state, SRC_DATA *data)
 
 static SRC_ERROR
 prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter_chan_len)
-{	int len = 0 ;
+{	int len = 0, keep ;
 
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
@@ -1179,10 +1183,10 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	else
 	{	/* Move data at end of buffer back to the start of the buffer. */
 		len = filter->b_end - filter->b_current ;
-		memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-						(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
+		keep = MIN (filter->b_current, filter->b_history) ;
+		memmove (filter->buffer, filter->buffer + filter->b_current - keep, (keep + len) * sizeof (filter->buffer [0])) ;
 
-		filter->b_current = half_filter_chan_len ;
+		filter->b_current = keep ;
 		filter->b_end = filter->b_current + len ;
 
 		/* Now load data at current end of buffer. */
@@ -1211,10 +1215,10 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
-			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
-							(half_filter_chan_len + len) * sizeof (filter->buffer [0])) ;
+			keep = MIN (filter->b_current, filter->b_history) ;
+			memmove (filter->buffer, filter->buffer + filter->b_current - keep, (keep + len) * sizeof (filter->buffer [0])) ;
 
-			filter->b_current = half_filter_chan_len ;
+			filter->b_current = keep ;
 			filter->b_end = filter->b_current + len ;
 			} ;
 
-- 
2.43.0


From ce22f594130ba3e5c7185fc85036d0539d092a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 10/10] fix: multichannel sinc read past the terminating zeros
 when the ratio fell

The zeros were 5 samples, not 5 frames, longer than half a filter, so the end
of the data was not on a frame boundary and the last frame was cut short.
---
 src/src_sinc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 4f1247a..3cde6db 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -247,7 +247,7 @@ sinc_filter_new (int converter_type, int channels)
 		priv->b_len = 4 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
-		priv->b_len += channels + 5 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
+		priv->b_len += 6 * channels ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
@@ -1212,7 +1212,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 * channels)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			keep = MIN (filter->b_current, filter->b_history) ;
@@ -1223,7 +1223,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 			} ;
 
 		filter->b_real_end = filter->b_end ;
-		len = half_filter_chan_len + 5 ;
+		len = half_filter_chan_len + 5 * channels ;
 
 		if (len < 0 || filter->b_end + len > filter->b_len)
 			len = filter->b_len - filter->b_end ;
-- 
2.43.0

