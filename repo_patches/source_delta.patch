From bf9ab1f455b51b52cfda1f0ed169cce659dd15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:20 +0000
Subject: [PATCH 01/20] fix: csc/rgb2rgb16f: encode pix/256 (leading one on 8
 bits, positive sign, zero)

---
 litevideo/csc/rgb2rgb16f.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..3eb2f91 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -106,10 +106,13 @@ class PIX2PIXFDatapath(Module):
         lshift = Signal(4)
         frac_val = Signal(10)
 
-        self.submodules.l1 = LeadOne(12)
+        zero = Signal()
+
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
+            zero.eq(sink.pix == 0),
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
             frac_val[:3].eq(0)
@@ -120,9 +123,13 @@ class PIX2PIXFDatapath(Module):
         # Pack in 16bit float
 
         self.sync += [
-            source.pixf[:10].eq(frac_val << lshift),
-            source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            If(zero,
+                source.pixf.eq(0)
+            ).Else(
+                source.pixf[:10].eq(frac_val << lshift),
+                source.pixf[10:15].eq(15 - 1 - lshift),
+                source.pixf[15].eq(0)
+            )
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 332a6f45e9825e49de68cf0cd73fb76a83762c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 02/20] fix: csc/rgb16f2rgb: convert 1.0 to 255 instead of 0

---
 litevideo/csc/rgb16f2rgb.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..3efb74e 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -47,7 +47,16 @@ class PIXF2PIXDatapath(Module):
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        # 1.0 is the only value of the range that needs 9 bits, it is saturated to 255
+        one = Signal()
+        self.sync += [
+            one.eq(sink.pixf[10:15] >= 15),
+            If(one,
+                source.pix.eq(2**pix_w - 1)
+            ).Else(
+                source.pix.eq((frac >> exp_offset)[3:])
+            )
+        ]
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From 83c4007f775dc9b9140e7b40d90ce914a444f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 03/20] fix: floatmult: normalize the product of the same
 operands (stage 3 register), not the next one

---
 litevideo/float_arithmetic/floatmult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..ccd2e5a 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -139,10 +139,10 @@ class FloatMultDatapath(Module):
             out_status4.eq(out_status3),
             If((out_exp3 - one_ptr) < 1,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From 0464064a6e46c73fc1263fa6c8cf480cd6558f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 04/20] fix: floatmult: keep results of the smallest normal
 exponent and of subnormal operands

---
 litevideo/float_arithmetic/floatmult.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index ccd2e5a..150436d 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,9 +137,14 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
+                # subnormal
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(((out_mult3 << out_exp3) << 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
                 out_mult_shift.eq(out_mult3 << one_ptr + 1)
-- 
2.43.0


From 8db4b8695879e334f79a3e86177c68c22ac998e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 05/20] fix: floatmult: propagate the sign of the product

---
 litevideo/float_arithmetic/floatmult.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index 150436d..715fefd 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -53,6 +53,7 @@ class FloatMultDatapath(Module):
         in1_sign = Signal()
         in2_sign = Signal()
 
+        out_sign1 = Signal()
         out_status1 = Signal(2)
         # 00-0 Zero
         # 01-1 Inf
@@ -71,6 +72,8 @@ class FloatMultDatapath(Module):
         ]
 
         self.sync += [
+            out_sign1.eq(in1_sign ^ in2_sign),
+
             If(in1_exp == 0,
                 in1_mant.eq(Cat(in1_frac, 0)),
                 in1_exp1.eq(in1_exp + 1)
@@ -100,9 +103,11 @@ class FloatMultDatapath(Module):
         # Multiply fractions and add exponents
         out_mult = Signal(22)
         out_exp = Signal((7, True))
+        out_sign2 = Signal()
         out_status2 = Signal(2)
 
         self.sync += [
+            out_sign2.eq(out_sign1),
             out_mult.eq(in1_mant * in2_mant),
             out_exp.eq(in1_exp1 + in2_exp1 - 15),
             out_status2.eq(out_status1),
@@ -111,6 +116,7 @@ class FloatMultDatapath(Module):
         # stage 3
         # Leading one detector
         one_ptr = Signal(5)
+        out_sign3 = Signal()
         out_status3 = Signal(2)
         out_mult3 = Signal(22)
         out_exp3 = Signal((7, True))
@@ -123,6 +129,7 @@ class FloatMultDatapath(Module):
         ]
 
         self.sync += [
+            out_sign3.eq(out_sign2),
             out_status3.eq(out_status2),
             out_mult3.eq(out_mult),
             out_exp3.eq(out_exp),
@@ -133,9 +140,11 @@ class FloatMultDatapath(Module):
         # Shift and Adjust
         out_exp_adjust = Signal((7, True))
         out_mult_shift = Signal(22)
+        out_sign4 = Signal()
         out_status4 = Signal(2)
 
         self.sync += [
+            out_sign4.eq(out_sign3),
             out_status4.eq(out_status3),
             If((out_exp3 - one_ptr) < 0,
                 # subnormal
@@ -157,7 +166,7 @@ class FloatMultDatapath(Module):
             If(out_status4 == 0,
                 source.out.eq(0)
             ).Elif(out_status4 == 3,
-                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5],0))
+                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5], out_sign4))
             )
         ]
 
-- 
2.43.0


From 8bbb952d539a03356a95829525946add7258ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 06/20] fix: floatadd: align on the effective exponent of a
 subnormal second operand

---
 litevideo/float_arithmetic/floatadd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..827742c 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
-- 
2.43.0


From 5c327d5c36eececcfa62d4acb09470c70a6211d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 07/20] fix: floatadd: encode zero and subnormal sums

---
 litevideo/float_arithmetic/floatadd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index 827742c..5a34c27 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If(in1_plus_in2_frac[10:] == 0,
+                # zero or subnormal
+                out_frac_stage4.eq(in1_plus_in2_frac << 1),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From fb5467190a54fcce47602056e2500d41d6b704e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 08/20] fix: synchronize the underflow enable into the DRAM
 port clock domain

---
 litevideo/output/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..2db1075 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -259,7 +259,7 @@ class VideoOutCore(Module, AutoCSR):
         underflow_enable = Signal()
         underflow_update = Signal()
         underflow_counter = Signal(32)
-        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable)
+        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable, cd)
         underflow_update_synchronizer = PulseSynchronizer("sys", cd)
         self.submodules += underflow_update_synchronizer
         self.comb += [
-- 
2.43.0


From dfc70a222d55a265c545af084b7a4ed8f32680de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 09/20] fix: delay the ycbcr422 output timing by the core
 source register too

---
 litevideo/output/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..66bcbc3 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,8 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            # 1: core source register
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 43b244d959e096d58be30eb9f7a4b3e2c74e7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 10/20] fix: give the event source of each input DMA slot its
 own name

---
 litevideo/input/dma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..757c0a4 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -9,8 +9,8 @@ from litedram.frontend.dma import LiteDRAMDMAWriter
 
 # Slot status: EMPTY=0 LOADED=1 PENDING=2
 class _Slot(Module, AutoCSR):
-    def __init__(self, addr_bits, alignment_bits):
-        self.ev_source = EventSourceLevel()
+    def __init__(self, addr_bits, alignment_bits, name=None):
+        self.ev_source = EventSourceLevel(name=name)
         self.address = Signal(addr_bits)
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
@@ -42,7 +42,7 @@ class _SlotArray(Module, AutoCSR):
 
         # # #
 
-        slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
+        slots = [_Slot(addr_bits, alignment_bits, "slot"+str(i)) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
             setattr(self.ev, "slot"+str(n), slot.ev_source)
-- 
2.43.0


From b721fde3485617e8612c178553379b59aa57a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 11/20] fix: align the HDMI data enable with the pixels it
 belongs to

---
 litevideo/input/__init__.py | 6 +++---
 litevideo/input/decoding.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/__init__.py b/litevideo/input/__init__.py
index 5c566bd..1b8751c 100644
--- a/litevideo/input/__init__.py
+++ b/litevideo/input/__init__.py
@@ -105,9 +105,9 @@ class HDMIIn(Module, AutoCSR):
              #   timingdelay = ClockDomainsRenamer("pix")(timingdelay)
              #   setattr(self.submodules, name + "_timingdelay", timingdelay)
                 # self.comb += timingdelay.sink.eq(getattr(self, "self.chansync.data_out" + str(datan)))  # this code doesn't work. why???
-            self.submodules.data0_timingdelay = TimingDelayChannel(1)
-            self.submodules.data1_timingdelay = TimingDelayChannel(1)
-            self.submodules.data2_timingdelay = TimingDelayChannel(1)
+            self.submodules.data0_timingdelay = TimingDelayChannel(2)
+            self.submodules.data1_timingdelay = TimingDelayChannel(2)
+            self.submodules.data2_timingdelay = TimingDelayChannel(2)
 
             self.comb += [
                 self.data0_timingdelay.sink.eq(self.chansync.data_out0),
diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..f3e7597 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -197,8 +197,10 @@ class DecodeTERC4(Module, AutoCSR):
         dvimode_bit = Signal()
         self.specials += MultiReg(self.dvimode.storage, dvimode_bit)
         self.de_r = Signal()
+        de_d = Signal()
         self.sync.pix += [
-            self.de_r.eq(self.data_in0.de)  # delay one clock to match the HDMI pipe latency
+            de_d.eq(self.data_in0.de),  # delay to match the HDMI pipe latency (channel decoders + state machine)
+            self.de_r.eq(de_d)
         ]
         self.comb += [
             If(dvimode_bit,
-- 
2.43.0


From fb2fe71cee0f20c388a96451d058a8396b01c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 12/20] fix: end the HDMI video guard band after its two pixels

---
 litevideo/input/decoding.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index f3e7597..74dafac 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -314,12 +314,16 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encrypting_video.eq(0),
                 self.de_hdmi.eq(0)
                 )
+        # the guard band is exactly 2 pixels: the first pixels of the video may have the same encoding
         fsm.act("GOING_VID",
-                If(all_vgb,
-                   NextState("GOING_VID")
-                ).Else(
-                    NextState("VIDEO")
-                ),
+                NextState("GOING_VID2"),
+                self.encoding_terc4.eq(0),
+                self.encrypting_data.eq(0),
+                self.encrypting_video.eq(0),
+                self.de_hdmi.eq(0)
+                )
+        fsm.act("GOING_VID2",
+                NextState("VIDEO"),
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(0),
-- 
2.43.0


From 1417f2d1ab2d87e5a6df194e7d57f8ee3ace6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 13/20] fix: edid: do not take a data bit sampled together with
 its clock edge for a start

---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..02f1cc4 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -116,7 +116,7 @@ class EDID(Module, AutoCSR):
         ]
 
         start = Signal()
-        self.comb += start.eq(scl_i & sda_falling)
+        self.comb += start.eq(scl_i & scl_r & sda_falling)
 
         din = Signal(8)
         counter = Signal(max=9)
-- 
2.43.0


From 2af71bd61a004fdcaac109d8a9b73e52aeda9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 14/20] fix: edid: release SDA when hot plug is disabled during
 a read

---
 litevideo/input/edid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 02f1cc4..0f9591d 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -166,10 +166,10 @@ class EDID(Module, AutoCSR):
         data_drv_en = Signal()
         data_drv_stop = Signal()
         self.sync += \
-            If(data_drv_en,
-                data_drv.eq(1)
-            ).Elif(data_drv_stop,
+            If(data_drv_stop,
                 data_drv.eq(0)
+            ).Elif(data_drv_en,
+                data_drv.eq(1)
             )
         self.sync += \
             If(data_drv_en,
@@ -255,4 +255,4 @@ class EDID(Module, AutoCSR):
         for state in fsm.actions.keys():
             fsm.act(state, If(start, NextState("RCV_ADDRESS")))
             if hasattr(pads, "hpd_en"):
-                fsm.act(state, If(~self._hpd_en.storage, NextState("WAIT_START")))
+                fsm.act(state, If(~self._hpd_en.storage, data_drv_stop.eq(1), NextState("WAIT_START")))
-- 
2.43.0


From 74415cd0c6b750cc2609f051bab692c1a73d5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 15/20] fix: s6: accept pads without a differential clock (VGA)
 in the output clocking

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..67944b8 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -170,14 +170,15 @@ class S6HDMIOutClocking(Module, AutoCSR):
 
         # Drive HDMI clock pads
         hdmi_clk_se = Signal()
+        clk_inverted = hasattr(pads, "clk_p") and hasattr(pads.clk_p, "inverted")
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
                                   o_Q=hdmi_clk_se,
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not clk_inverted,
+                                  i_D1=clk_inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From de9802a3ab51c676a762a2319aba19199c6cbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 16/20] fix: keep the VGA color pads black during blanking

---
 litevideo/output/driver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/driver.py b/litevideo/output/driver.py
index dccc9ee..ac37ebd 100644
--- a/litevideo/output/driver.py
+++ b/litevideo/output/driver.py
@@ -29,9 +29,11 @@ class VGAPHY(Module):
             self.sink.ready.eq(1),
             pads.hsync_n.eq(~self.sink.hsync),
             pads.vsync_n.eq(~self.sink.vsync),
-            pads.r.eq(self.sink.r[8-len(pads.r):]),
-            pads.g.eq(self.sink.g[8-len(pads.g):]),
-            pads.b.eq(self.sink.b[8-len(pads.b):]),
+            If(self.sink.de, # black during blanking
+                pads.r.eq(self.sink.r[8-len(pads.r):]),
+                pads.g.eq(self.sink.g[8-len(pads.g):]),
+                pads.b.eq(self.sink.b[8-len(pads.b):])
+            ),
             pads.psave_n.eq(1)
         ]
 
-- 
2.43.0


From 6c515dedb3bdafede97ef96cda7ef26dc3cee5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 17/20] fix: terminal: 800 clocks per line, as documented,
 instead of 801

---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From 3f8ab7049647f6150dfd35a00129435c203a0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 18/20] fix: terminal: vertical sync pulse lasts 2 lines,
 without the clock lost at the end of the image

---
 litevideo/terminal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index ab953cc..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -237,6 +237,10 @@ class Terminal(Module):
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From c517353829dd1a911bdfc749a4297287d2241e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 19/20] fix: patterns: hold each pixel until it is accepted,
 produce none without parameters

---
 litevideo/output/pattern.py | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..16b3531 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -18,9 +18,9 @@ class ColorBarsPattern(Module):
         pix = Signal(hbits)
         bar = Signal(3)
         self.sync += [
-            If(sink.valid,
-                source.valid.eq(1),
-                If(source.ready,
+            If(~source.valid | source.ready,
+                source.valid.eq(sink.valid),
+                If(sink.valid,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
                         bar.eq(bar + 1)
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(~source.valid | source.ready, Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -64,9 +64,9 @@ class VerticalLinesPattern(Module):
 
         parity = Signal()
         self.sync += [
-            If(sink.valid,
-                source.valid.eq(1),
-                If(source.ready,
+            If(~source.valid | source.ready,
+                source.valid.eq(sink.valid),
+                If(sink.valid,
                     parity.eq(~parity)
                 ),
                 If(parity,
@@ -94,9 +94,9 @@ class DotsPattern(Module):
         h = Signal(hbits)
         parity = Signal()
         self.sync += [
-            If(sink.valid,
-                source.valid.eq(1),
-                If(source.ready,
+            If(~source.valid | source.ready,
+                source.valid.eq(sink.valid),
+                If(sink.valid,
                     If(h == (sink.hres-1),
                         # don't change parity:
                         # next line pixel will
@@ -106,15 +106,15 @@ class DotsPattern(Module):
                         h.eq(h+1),
                         parity.eq(~parity)
                     )
+                ),
+                If(parity,
+                    source.r.eq(255),
+                    source.g.eq(255),
+                    source.b.eq(255)
+                ).Else(
+                    source.r.eq(0),
+                    source.g.eq(0),
+                    source.b.eq(0)
                 )
-            ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
             )
         ]
-- 
2.43.0


From 8234e9a2d7ec0a375d975752e2aa864bb393aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 20/20] fix: FrameExtraction: start each frame on a new word

At the beginning of a frame, cur_word_valid was set when the word being
assembled lacked only one pixel: this emitted, marked as start of frame, a
word made of the pixels of two different places, and left the real first word
of the new frame unmarked.
---
 litevideo/input/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..93fe3c2 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,8 +198,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0),  # the pixels of an incomplete word are dropped
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
@@ -222,8 +221,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0),  # the pixels of an incomplete word are dropped
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[32*i:32*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
-- 
2.43.0

