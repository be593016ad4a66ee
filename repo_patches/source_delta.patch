From 4ff5f04c1b73c4ee9d0d8e619bd05574a97b419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 01/27] fix: rgb2rgb16f: encode pixels as positive pixel/256
 half floats

The leading one detector was 12 bits wide for 8 bits pixels (every exponent
was too small by 4), the sign bit was set and 0 was encoded as 0.5.
---
 litevideo/csc/rgb2rgb16f.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..f009bd5 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -106,7 +106,7 @@ class PIX2PIXFDatapath(Module):
         lshift = Signal(4)
         frac_val = Signal(10)
 
-        self.submodules.l1 = LeadOne(12)
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
@@ -121,8 +121,12 @@ class PIX2PIXFDatapath(Module):
 
         self.sync += [
             source.pixf[:10].eq(frac_val << lshift),
-            source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            If(pix_delayed[1].pix == 0,
+                source.pixf[10:15].eq(0)
+            ).Else(
+                source.pixf[10:15].eq(15 - 1 - lshift)
+            ),
+            source.pixf[15].eq(0)
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From b859317abd687593e67b83f03ca3c048f1d6aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 02/27] fix: rgb16f2rgb: convert 1.0 to full scale instead of 0

1.0 is part of the documented [0-1] input range but made the exponent offset
wrap around and the shifter return 0.
---
 litevideo/csc/rgb16f2rgb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..c4007a3 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -37,8 +37,10 @@ class PIXF2PIXDatapath(Module):
         frac = Signal(11)
         exp = Signal(5)
         exp_offset = Signal(5)
+        overflow = Signal()
 
         self.sync += [
+            overflow.eq(sink.pixf[10:15] >= 15),
             exp_offset.eq(15 - sink.pixf[10:15] - 1),
             frac[:10].eq(sink.pixf[:10]),
             frac[10].eq(1)
@@ -47,7 +49,13 @@ class PIXF2PIXDatapath(Module):
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        # Saturate 1.0 (and above) to the maximum
+        self.sync += \
+            If(overflow,
+                source.pix.eq(2**pix_w-1)
+            ).Else(
+                source.pix.eq( (frac >> exp_offset)[3:])
+            )
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From 09a6cbdfc4a0fc5e87db8e33edd8ec668469870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 03/27] fix: ycbcr422to444: forward first/last

The packet delimiters of the sink were dropped: anything waiting for the end
of a packet behind the converter (ycbcr_resampling_tb for example) hung.
---
 litevideo/csc/ycbcr422to444.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..3d078d7 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -43,7 +43,9 @@ class YCbCr422to444(Module):
                 cr_fifo.sink.valid.eq(sink.valid & sink.ready),
                 cr_fifo.sink.data.eq(sink.cb_cr),
                 sink.ready.eq(y_fifo.sink.ready & cr_fifo.sink.ready)
-            )
+            ),
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last)
         ]
 
 
@@ -54,6 +56,8 @@ class YCbCr422to444(Module):
             source.valid.eq(y_fifo.source.valid &
                             cb_fifo.source.valid &
                             cr_fifo.source.valid),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last),
             source.y.eq(y_fifo.source.data),
             source.cb.eq(cb_fifo.source.data),
             source.cr.eq(cr_fifo.source.data),
-- 
2.43.0


From 61deac05c38402ca3bb10b3a163a12242b156846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 04/27] fix: ycbcr444to422: pair pixels by stream position, not
 by cycle

The chroma of pixels was averaged over consecutive pipeline cycles with a
phase that toggled on idle cycles too: any idle cycle before the first pixel
or gap between pixels swapped Cb/Cr and averaged unrelated pixels.
---
 litevideo/csc/ycbcr444to422.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/litevideo/csc/ycbcr444to422.py b/litevideo/csc/ycbcr444to422.py
index c82babe..784d5ee 100644
--- a/litevideo/csc/ycbcr444to422.py
+++ b/litevideo/csc/ycbcr444to422.py
@@ -77,10 +77,28 @@ class YCbCr444to422(PipelinedActor, Module):
 
         # # #
 
+        # the datapath averages consecutive cycles: only let complete pairs of
+        # pixels enter the pipeline so that gaps on the sink can't split them
+        self.submodules.fifo = fifo = SyncFIFO(ycbcr444_layout(dw), 4)
+        pairs = stream.Endpoint(EndpointDescription(ycbcr444_layout(dw)))
+        second = Signal()
+        self.comb += [
+            sink.connect(fifo.sink),
+            fifo.source.connect(pairs, omit={"valid", "ready"}),
+            pairs.valid.eq(fifo.source.valid & (second | (fifo.level > 1))),
+            fifo.source.ready.eq(pairs.valid & pairs.ready)
+        ]
+        self.sync += If(pairs.valid & pairs.ready, second.eq(~second))
+
         self.submodules.datapath = YCbCr444to422Datapath(dw)
+        self.sink = pairs
         PipelinedActor.__init__(self, self.datapath.latency)
-        self.comb += self.datapath.ce.eq(self.pipe_ce)
+        self.sink = sink
+        self.comb += [
+            self.datapath.ce.eq(self.pipe_ce),
+            self.datapath.first.eq(pairs.valid & ~second)
+        ]
         for name in ["y", "cb", "cr"]:
-            self.comb += getattr(self.datapath.sink, name).eq(getattr(sink, name))
+            self.comb += getattr(self.datapath.sink, name).eq(getattr(pairs, name))
         for name in ["y", "cb_cr"]:
             self.comb += getattr(source, name).eq(getattr(self.datapath.source, name))
-- 
2.43.0


From fab84e737fc8872b50f40fb1c7a73769a1b39b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 05/27] fix: floatmult: normalize the product of the same
 operands

Stage 4 shifted the product that stage 2 had computed for the following
operands (results were only right for repeated operands) and products around
and below the smallest normal were shifted by a negative or wrong amount.
---
 litevideo/float_arithmetic/floatmult.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..f2410df 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -134,15 +134,22 @@ class FloatMultDatapath(Module):
         out_exp_adjust = Signal((7, True))
         out_mult_shift = Signal(22)
         out_status4 = Signal(2)
+        sub_shift = Signal(6)
+        self.comb += sub_shift.eq(0 - out_exp3)
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
+                # subnormal
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                If(out_exp3[-1],
+                    out_mult_shift.eq(((out_mult3 >> sub_shift) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << (out_exp3[:5] + 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From 0bafad9fdf46fb860a4b24abeabe3b48ece2487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 06/27] fix: floatadd: zero and subnormal sums

The exponent difference ignored that subnormals have exponent 1, and zero or
subnormal sums were packed with a wrapped exponent (0 + 0 returned 2**-13).
---
 litevideo/float_arithmetic/floatadd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..6d876fc 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3),
+                # zero or subnormal
+                out_frac_stage4.eq(in1_plus_in2_frac << 1),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From 17c8317ad6ed370b6e9ad057360302ef6f0bd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 07/27] fix: frame extraction: use the 4:2:2 datapath without
 the stream pairing logic

The pixels reach the downsampler at a fixed rate and latency, with pairs
delimited by de: instantiate the fixed latency datapath, YCbCr444to422 now
being a stream converter that forms its pairs itself.
---
 litevideo/input/analysis.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..d740fc9 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -6,7 +6,7 @@ from litex.soc.interconnect import stream
 
 from litevideo.input.common import channel_layout
 from litevideo.csc.rgb2ycbcr import RGB2YCbCr
-from litevideo.csc.ycbcr444to422 import YCbCr444to422
+from litevideo.csc.ycbcr444to422 import YCbCr444to422Datapath
 
 
 class SyncPolarity(Module):
@@ -162,27 +162,36 @@ class FrameExtraction(Module, AutoCSR):
 
             rgb2ycbcr = RGB2YCbCr()
             self.submodules += ClockDomainsRenamer("pix")(rgb2ycbcr)
-            chroma_downsampler = YCbCr444to422()
+            # the pixels come at a fixed rate and pairs are delimited by de: use
+            # the (fixed latency) datapath without the stream pairing logic
+            chroma_downsampler = YCbCr444to422Datapath(8)
             self.submodules += ClockDomainsRenamer("pix")(chroma_downsampler)
             self.comb += [
                 rgb2ycbcr.sink.valid.eq(self.valid_i),
                 rgb2ycbcr.sink.r.eq(self.r),
                 rgb2ycbcr.sink.g.eq(self.g),
                 rgb2ycbcr.sink.b.eq(self.b),
-                rgb2ycbcr.source.connect(chroma_downsampler.sink),
-                chroma_downsampler.source.ready.eq(1),
-                chroma_downsampler.datapath.first.eq(self.de & ~de_r) # XXX need clean up
+                rgb2ycbcr.source.ready.eq(1),
+                chroma_downsampler.sink.y.eq(rgb2ycbcr.source.y),
+                chroma_downsampler.sink.cb.eq(rgb2ycbcr.source.cb),
+                chroma_downsampler.sink.cr.eq(rgb2ycbcr.source.cr),
+                chroma_downsampler.ce.eq(1),
+                chroma_downsampler.first.eq(self.de & ~de_r) # XXX need clean up
             ]
             # XXX need clean up
             de = self.de
+            valid = self.valid_i
             for i in range(rgb2ycbcr.latency + chroma_downsampler.latency):
                 next_de = Signal()
+                next_valid = Signal()
                 next_vsync = Signal()
                 self.sync.pix += [
                     next_de.eq(de),
+                    next_valid.eq(valid),
                     next_vsync.eq(vsync)
                 ]
                 de = next_de
+                valid = next_valid
                 vsync = next_vsync
 
 
@@ -200,7 +209,7 @@ class FrameExtraction(Module, AutoCSR):
                 If(new_frame,
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
-                ).Elif(chroma_downsampler.source.valid & de,
+                ).Elif(valid & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-- 
2.43.0


From b025eca7ce525bf5379299dec88444eefa0d736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 08/27] fix: video out core: wait for memory data outside of
 the active area in raw mode

In raw mode the memory also holds the blanking symbols (they are popped from
the DMA), but outside of the active area a sample was declared valid without
data: on underflow garbage was sent and the stream shifted.
---
 litevideo/output/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..ad0ce91 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -230,8 +230,7 @@ class VideoOutCore(Module, AutoCSR):
             initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
-            source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
-              # the "or de is low" thing seems like a hack to fix some edge case??
+            source.valid.eq(timing.source.valid & ((~timing.source.de & (mode != "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or the memory holds no data for the sample: de is low and not in raw mode)
             # flush dma/timing when disabled
             If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
-- 
2.43.0


From 6fc21dc8f8abd45ece35e8180f910b2084df4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 09/27] fix: video out core: fetch and display a frame with the
 same parameters

---
 litevideo/output/core.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index ad0ce91..9ab3841 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -222,17 +222,37 @@ class VideoOutCore(Module, AutoCSR):
         self.submodules.dma = dma = ClockDomainsRenamer(cd)(DMAReader(dram_port, fifo_depth, genlock_stream))
 
         # ctrl path
-        self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
+        # the DMA fetches the next frame(s) while the current one is displayed: queue the parameters of
+        # the two separately, so that a frame is fetched and displayed with the same set of parameters
+        if genlock_stream == None:
+            timing_params = ClockDomainsRenamer(cd)(stream.SyncFIFO(frame_parameter_layout, 2))
+            dma_params = ClockDomainsRenamer(cd)(stream.SyncFIFO(frame_dma_layout, 2))
+            self.submodules += timing_params, dma_params
+            self.comb += [
+                # dispatch initiator parameters to timing & dma (both or none)
+                initiator.source.ready.eq(timing_params.sink.ready & dma_params.sink.ready),
+                timing_params.sink.valid.eq(initiator.source.valid & dma_params.sink.ready),
+                dma_params.sink.valid.eq(initiator.source.valid & timing_params.sink.ready),
+                initiator.source.connect(timing_params.sink, keep=list_signals(frame_parameter_layout)),
+                initiator.source.connect(dma_params.sink, keep=list_signals(frame_dma_layout)),
+                # each pulls its next set when done with its frame
+                timing_params.source.connect(timing.sink),
+                dma_params.source.connect(dma.sink)
+            ]
+        else:
+            self.comb += [
+                timing.sink.valid.eq(initiator.source.valid), # if the CSR FIFO data is valid, timing may proceed
+                dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
+                initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
+                initiator.source.connect(timing.sink, keep=list_signals(frame_parameter_layout)), # initiator is a compound source, so use "keep" to demux. initiator sources config data to the timer
+                initiator.source.connect(dma.sink, keep=list_signals(frame_dma_layout))  # the initiator sources parameters to the DMA, which are DMA layout config data
+            ]
 
         self.comb += [
-            # dispatch initiator parameters to timing & dma
-            dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
-            initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
-
             # combine timing and dma
             source.valid.eq(timing.source.valid & ((~timing.source.de & (mode != "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or the memory holds no data for the sample: de is low and not in raw mode)
             # flush dma/timing when disabled
-            If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
+            If(~timing.sink.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
@@ -243,10 +263,6 @@ class VideoOutCore(Module, AutoCSR):
 
         # data path
         self.comb += [
-            # dispatch initiator parameters to timing & dma
-            initiator.source.connect(timing.sink, keep=list_signals(frame_parameter_layout)), # initiator is a compound source, so use "keep" to demux. initiator sources config data to the timer
-            initiator.source.connect(dma.sink, keep=list_signals(frame_dma_layout)),  # the initiator sources parameters to the DMA, which are DMA layout config data
-
             # combine timing and dma
             source.de.eq(timing.source.de),  # manually assign this block's video de, hsync, vsync outputs,, to the respective timing or DMA outputs
             source.hsync.eq(timing.source.hsync),
-- 
2.43.0


From afc1bb09faf92e9a340d4889f53e3ec2635c4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 10/27] fix: frame extraction: do not start a frame with the
 leftover of an incomplete one

---
 litevideo/input/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index d740fc9..2fa19e7 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -207,8 +207,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0), # drop the incomplete word, if any
                 ).Elif(valid & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
@@ -231,8 +230,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0), # drop the incomplete word, if any
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[32*i:32*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
-- 
2.43.0


From 2ec1661f28d49e17c54aa34a41e2f43a68126c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:21 +0000
Subject: [PATCH 11/27] fix: input dma: give the slot event sources distinct
 names

all of them were called ev_source, which LiteX refuses as duplicate CSR field
---
 litevideo/input/dma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..2c9bb57 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -9,8 +9,8 @@ from litedram.frontend.dma import LiteDRAMDMAWriter
 
 # Slot status: EMPTY=0 LOADED=1 PENDING=2
 class _Slot(Module, AutoCSR):
-    def __init__(self, addr_bits, alignment_bits):
-        self.ev_source = EventSourceLevel()
+    def __init__(self, name, addr_bits, alignment_bits):
+        self.ev_source = EventSourceLevel(name=name)
         self.address = Signal(addr_bits)
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
@@ -42,7 +42,7 @@ class _SlotArray(Module, AutoCSR):
 
         # # #
 
-        slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
+        slots = [_Slot("slot"+str(i), addr_bits, alignment_bits) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
             setattr(self.ev, "slot"+str(n), slot.ev_source)
-- 
2.43.0


From 7180657edb44e6061626c3bbe5207da2346b3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 12/27] fix: input dma: switch to another armed slot as soon as
 one completes

the completed slot could stay selected for a cycle, in which the start of
the next frame was dropped although another slot was armed
---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 2c9bb57..a429e33 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -50,7 +50,7 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=nslots)
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
 
-- 
2.43.0


From b931084bb7ed0d53755cf71f1fb77c7610952ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:48 +0000
Subject: [PATCH 13/27] fix: video out dma: start the next frame without an
 idle cycle

in raw mode a word is needed in every cycle, so one symbol per frame was
output without its data
---
 litevideo/output/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 9ab3841..28926fe 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -82,12 +82,14 @@ class DMAReader(Module, AutoCSR):
                     )
                 )
             fsm.act("READ",
-                self.dma.sink.valid.eq(1),  # tell the DMA reader that we've got a valid address for it
-                If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
+                self.dma.sink.valid.eq(sink.valid),  # tell the DMA reader that we've got a valid address for it
+                If(~sink.valid,
+                    NextState("IDLE")
+                ).Elif(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
-                        NextState("IDLE")
+                        NextValue(offset, 0)    # and go on with the next frame at once: in raw mode every cycle needs a word
                     )
                 )
             )
-- 
2.43.0


From ac6d3347cd6330fa2478ce472204395beadc4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:14 +0000
Subject: [PATCH 14/27] fix: video out: delay timing as much as data in
 ycbcr422 mode

data is registered before the conversion, so data enable was one pixel early:
the first pixel of each line was garbage and the last one missing
---
 litevideo/output/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..c78bfae 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,7 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency) # 1: data is registered first (see below)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 81d28881fb743414ca5fe5c73e02e4d01fd81b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:40 +0000
Subject: [PATCH 15/27] fix: video out spartan-6: build with VGA pads

the clock pads were inspected before it was known that there are any
---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..4e60aee 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -169,6 +169,7 @@ class S6HDMIOutClocking(Module, AutoCSR):
             ]
 
         # Drive HDMI clock pads
+        inverted = hasattr(getattr(pads, "clk_p", None), "inverted")  # VGA pads have no clk_p
         hdmi_clk_se = Signal()
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
@@ -176,8 +177,8 @@ class S6HDMIOutClocking(Module, AutoCSR):
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not inverted,
+                                  i_D1=inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From 09670fb487d4e8b196afb8fc4bd7852a467e2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 16/27] fix: edid: release SDA when hot plug is disabled in the
 middle of a read

the slave kept pulling SDA low for ever, blocking the bus
---
 litevideo/input/edid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..2304a5e 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -178,7 +178,9 @@ class EDID(Module, AutoCSR):
 
         self.submodules.fsm = fsm = FSM()
 
-        fsm.act("WAIT_START")
+        fsm.act("WAIT_START",
+            data_drv_stop.eq(1) # release SDA when disabled in the middle of a read
+        )
         fsm.act("RCV_ADDRESS",
             If(counter == 8,
                 If(din[1:] == 0x50,
-- 
2.43.0


From 5c43b7f555e404b9d9d294f349c0133ceb76e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:16 +0000
Subject: [PATCH 17/27] fix: decode terc4: data enable aligned with the pixels

The data enable of HDMI mode was one character late (with respect to the data
and to DVI mode), so that the first pixel of each line was lost and a control
character was taken as the last one. A line starting with pixels encoded as
guard bands also lost those pixels.
---
 litevideo/input/decoding.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..c695fcb 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -313,11 +313,9 @@ class DecodeTERC4(Module, AutoCSR):
                 self.de_hdmi.eq(0)
                 )
         fsm.act("GOING_VID",
-                If(all_vgb,
-                   NextState("GOING_VID")
-                ).Else(
-                    NextState("VIDEO")
-                ),
+                # the guard band is 2 characters: the next one is a pixel, even
+                # if it is encoded as a guard band
+                NextState("VIDEO"),
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(0),
@@ -331,6 +329,6 @@ class DecodeTERC4(Module, AutoCSR):
                 ),
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
-                self.encrypting_video.eq(1),
-                self.de_hdmi.eq(1)
+                self.encrypting_video.eq(~any_cvalid),
+                self.de_hdmi.eq(~any_cvalid)
                 )
-- 
2.43.0


From 3f6d50ccee91d61b19a4fdb17ae2b954ed3659b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 18/27] fix: terminal: 800 clocks per line

pixel_counter counted from 0 to 800 included, 801 clocks.
---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From 24620e6cd025562bb5eae3fb0dc819f8efcd4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:12 +0000
Subject: [PATCH 19/27] fix: patterns: respect back-pressure

The pixel was registered after the counters and changed while the sink was not
ready, so that pixels were lost or repeated after a stall.
---
 litevideo/output/pattern.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..972edae 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -17,9 +17,9 @@ class ColorBarsPattern(Module):
         # ctrl
         pix = Signal(hbits)
         bar = Signal(3)
+        self.comb += source.valid.eq(sink.valid)
         self.sync += [
             If(sink.valid,
-                source.valid.eq(1),
                 If(source.ready,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.comb += Case(bar, cases)
 
 
 class VerticalLinesPattern(Module):
@@ -63,21 +63,23 @@ class VerticalLinesPattern(Module):
         # # #
 
         parity = Signal()
+        self.comb += source.valid.eq(sink.valid)
         self.sync += [
             If(sink.valid,
-                source.valid.eq(1),
                 If(source.ready,
                     parity.eq(~parity)
-                ),
-                If(parity,
-                    source.r.eq(255),
-                    source.g.eq(255),
-                    source.b.eq(255)
-                ).Else(
-                    source.r.eq(0),
-                    source.g.eq(0),
-                    source.b.eq(0)
-               )
+                )
+            )
+        ]
+        self.comb += [
+            If(parity,
+                source.r.eq(255),
+                source.g.eq(255),
+                source.b.eq(255)
+            ).Else(
+                source.r.eq(0),
+                source.g.eq(0),
+                source.b.eq(0)
             )
         ]
 
@@ -93,9 +95,9 @@ class DotsPattern(Module):
 
         h = Signal(hbits)
         parity = Signal()
+        self.comb += source.valid.eq(sink.valid)
         self.sync += [
             If(sink.valid,
-                source.valid.eq(1),
                 If(source.ready,
                     If(h == (sink.hres-1),
                         # don't change parity:
@@ -107,7 +109,9 @@ class DotsPattern(Module):
                         parity.eq(~parity)
                     )
                 )
-            ),
+            )
+        ]
+        self.comb += [
             If(parity,
                 source.r.eq(255),
                 source.g.eq(255),
-- 
2.43.0


From 116dace33ce2424763cc78678d4899d5ee56b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 20/27] fix: EDID slave takes a data byte behind the offset as
 an address

After the offset byte the slave waited for another address byte without a
start condition: a data byte 0xa0 or 0xa1 was acknowledged and, in the latter
case, the slave began to drive SDA in the middle of the master's write.
---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 2304a5e..a2f699a 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -229,7 +229,7 @@ class EDID(Module, AutoCSR):
         fsm.act("ACK_OFFSET2",
             zero_drv.eq(1),
             If(~scl_i,
-                NextState("RCV_ADDRESS")
+                NextState("WAIT_START") # only a start makes the next byte an address
             )
         )
 
-- 
2.43.0


From 6d9039ec6f19476fd407f4165ac56a29daae643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 21/27] fix: output core: synchronise underflow_enable to the
 clock it is used in

---
 litevideo/output/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 28926fe..dab6dd0 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -276,7 +276,7 @@ class VideoOutCore(Module, AutoCSR):
         underflow_enable = Signal()
         underflow_update = Signal()
         underflow_counter = Signal(32)
-        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable)
+        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable, cd)
         underflow_update_synchronizer = PulseSynchronizer("sys", cd)
         self.submodules += underflow_update_synchronizer
         self.comb += [
-- 
2.43.0


From d564eabe977320e75533a70ef9306b4edf0c2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 22/27] fix: output core: genlock: fetch from the start of a
 frame on, not from the middle of one

---
 litevideo/output/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index dab6dd0..bcc477f 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -97,7 +97,7 @@ class DMAReader(Module, AutoCSR):
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
                 If(sink.valid,  # if our parameters are valid, start reading
-                       NextState("READ")
+                       NextState("WAIT_SOF")  # a fetch that starts within a frame leaves words behind, for good
                     ).Else(
                         dram_port.flush.eq(1),
                     )
@@ -113,8 +113,11 @@ class DMAReader(Module, AutoCSR):
                 )
             )
             fsm.act("WAIT_SOF",  # wait till vsync/start of frame
-                If(self.sof,
+                NextValue(offset, self.delay_base.storage),
+                If(~sink.valid,
                    NextState("IDLE")
+                ).Elif(self.sof,
+                   NextState("READ")
                 )
             )
 
-- 
2.43.0


From 25a394c87b2d581e3b85b004cf6ef9c3dddb5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:34 +0000
Subject: [PATCH 23/27] fix: overflow flag could stay masked for good when the
 pixel domain is reset during a clear

---
 litevideo/input/analysis.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 2fa19e7..7277ec0 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -1,5 +1,5 @@
 from migen import *
-from migen.genlib.cdc import MultiReg, PulseSynchronizer
+from migen.genlib.cdc import MultiReg
 
 from litex.soc.interconnect.csr import *
 from litex.soc.interconnect import stream
@@ -274,21 +274,28 @@ class FrameExtraction(Module, AutoCSR):
 
         sys_overflow = Signal()
         self.specials += MultiReg(pix_overflow, sys_overflow)
-        self.submodules.overflow_reset = PulseSynchronizer("sys", "pix")
-        self.submodules.overflow_reset_ack = PulseSynchronizer("pix", "sys")
-        self.comb += [
-            pix_overflow_reset.eq(self.overflow_reset.o),
-            self.overflow_reset_ack.i.eq(pix_overflow_reset)
-        ]
 
-        overflow_mask = Signal()
+        # clear: handshake on levels, so that none is lost and the flag not
+        # masked for good when the pix domain is stopped or reset meanwhile
+        clear = Signal()
+        clear_pending = Signal()
+        clear_pix = Signal()
+        clear_pix_r = Signal()
+        clear_ack = Signal()
+        self.specials += [
+            MultiReg(clear, clear_pix, "pix"),
+            MultiReg(clear_pix, clear_ack)
+        ]
+        self.sync.pix += clear_pix_r.eq(clear_pix)
         self.comb += [
-            self._overflow.w.eq(sys_overflow & ~overflow_mask),
-            self.overflow_reset.i.eq(self._overflow.re)
+            pix_overflow_reset.eq(clear_pix & ~clear_pix_r),
+            self._overflow.w.eq(sys_overflow & ~(clear_pending | clear | clear_ack))
         ]
         self.sync += \
-            If(self._overflow.re,
-                overflow_mask.eq(1)
-            ).Elif(self.overflow_reset_ack.o,
-                overflow_mask.eq(0)
+            If(clear | clear_ack,
+                If(self._overflow.re, clear_pending.eq(1)),
+                If(clear_ack, clear.eq(0))
+            ).Elif(self._overflow.re | clear_pending,
+                clear_pending.eq(0),
+                clear.eq(1)
             )
-- 
2.43.0


From 89caa235e94961e033f0ed8d071e4a46c6906add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:05 +0000
Subject: [PATCH 24/27] fix: output queued old parameters again after a reset
 of the pixel clock domain

---
 litevideo/output/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index bcc477f..197fb84 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -26,9 +26,13 @@ class Initiator(Module, AutoCSR):
         # # #
 
         cdc = stream.AsyncFIFO(self.source.description, 4)
+        cdc = ResetInserter(["write"])(cdc)
         cdc = ClockDomainsRenamer({"write": "sys",
                                    "read": cd})(cdc)
         self.submodules += cdc
+        # when cd is reset (e.g. its clock is reprogrammed), forget what is queued: both sides of the FIFO
+        # must start from the same state
+        self.specials += MultiReg(ResetSignal(cd, allow_reset_less=True), cdc.reset_write)
 
         self.enable = CSRStorage()
         for name, width in frame_parameter_layout + frame_dma_layout:
-- 
2.43.0


From 4ea9cfe41ff623a15063002b1e54cc07c193c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:05 +0000
Subject: [PATCH 25/27] fix: Series 7 output left the reset of its pixel clock
 domain at any moment

---
 litevideo/output/hdmi/s7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/hdmi/s7.py b/litevideo/output/hdmi/s7.py
index 8b4d1fb..25465f5 100644
--- a/litevideo/output/hdmi/s7.py
+++ b/litevideo/output/hdmi/s7.py
@@ -1,4 +1,5 @@
 from migen import *
+from migen.genlib.resetsync import AsyncResetSynchronizer
 
 from litex.soc.interconnect import stream
 from litex.soc.interconnect.csr import *
@@ -130,7 +131,7 @@ class S7HDMIOutClocking(Module, AutoCSR):
                 self._mmcm_drdy.status.eq(1)
             )
         ]
-        self.comb += self.cd_pix.rst.eq(~mmcm_locked)
+        self.specials += AsyncResetSynchronizer(self.cd_pix, ~mmcm_locked)
         if hasattr(pads, "clk_p"):
             self.submodules.clk_gen = S7HDMIOutEncoderSerializer(pads.clk_p, pads.clk_n, bypass_encoder=True)
             self.comb += self.clk_gen.data.eq(Signal(10, reset=0b0000011111))
-- 
2.43.0


From 3bd4f6137c3870800a4474f44ca95d45334a710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 26/27] fix: input DMA could not be built with a single slot

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index a429e33..7526294 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -49,7 +49,7 @@ class _SlotArray(Module, AutoCSR):
         self.ev.finalize()
 
         change_slot = Signal()
-        current_slot = Signal(max=nslots)
+        current_slot = Signal(max=max(nslots, 2))
         self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
-- 
2.43.0


From 503476b2eadb4f3ac2a22b0007c0c55f4d209ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 27/27] fix: output: Verilog of a pixel clock domain without
 reset (Spartan-6) could not be generated

---
 litevideo/output/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 197fb84..d6b036c 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -32,7 +32,9 @@ class Initiator(Module, AutoCSR):
         self.submodules += cdc
         # when cd is reset (e.g. its clock is reprogrammed), forget what is queued: both sides of the FIFO
         # must start from the same state
-        self.specials += MultiReg(ResetSignal(cd, allow_reset_less=True), cdc.reset_write)
+        cd_reset = Signal()
+        self.comb += cd_reset.eq(ResetSignal(cd, allow_reset_less=True))
+        self.specials += MultiReg(cd_reset, cdc.reset_write)
 
         self.enable = CSRStorage()
         for name, width in frame_parameter_layout + frame_dma_layout:
-- 
2.43.0

