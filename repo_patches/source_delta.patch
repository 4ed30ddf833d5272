From 41103eb8e05241bef28cbeb6cdd049f8e75f0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 01/20] fix: Ui8tof32 read and wrote past the slices for
 unaligned output

The vector loop stepped by 16 samples from the aligned index up to
len&^15, so when the head loop had consumed 1-3 samples and len%16 was
smaller than that it ran one block past the end of both slices.
---
 dsp/conversion_avo_amd64.go | 2 ++
 dsp/conversion_avo_amd64.s  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ace8e74 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,9 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
+	SUBQ(index, n)
 	ANDQ(U32(^uint32(15)), n)
+	ADDQ(index, n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..c0bcd3b 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,9 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
+	SUBQ   BX, SI
 	ANDQ   $0xfffffff0, SI
+	ADDQ   BX, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 4529409602997764ffcbecbbde1514401191f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 02/20] fix: I8tof32 read and wrote past the slices for
 unaligned output

As in Ui8tof32, the vector loop's end has to be counted from the index the
head loop reached.
---
 dsp/conversion_amd64.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..5eb6cdf 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,9 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
+	SUBQ AX, DX
 	ANDQ $(~15), DX
+	ADDQ AX, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
-- 
2.43.0


From a0bb5e79810da6b74a696398c24d3549ba48c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 03/20] fix: F32toi16 result depended on the position of the
 sample

Samples that do not fit in 16 bits were clipped in the vector loop but
wrapped in the scalar tail (and in the portable version), and from 2^31 on
the vector loop gave -32768 for positive values.  Clip everywhere.
---
 dsp/conversion.go      | 20 ++++++++++++++++----
 dsp/conversion_amd64.s | 16 +++++++++++++++-
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..b27dfd9 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -108,7 +108,19 @@ func C64toi8(input []complex64, output []int8) {
 	}
 }
 
-// F32toi16 converts scaled 32-bit floats to 16-bit integers.
+// clip16 truncates v toward zero to the nearest value that fits 16 bits.
+func clip16(v float32) int16 {
+	switch {
+	case v >= math.MaxInt16:
+		return math.MaxInt16
+	case v <= math.MinInt16:
+		return math.MinInt16
+	}
+	return int16(v)
+}
+
+// F32toi16 converts scaled 32-bit floats to 16-bit integers. Values that do
+// not fit are clipped.
 func F32toi16(input []float32, output []int16, scale float32)
 func f32toi16(input []float32, output []int16, scale float32) {
 	n := len(output)
@@ -116,12 +128,12 @@ func f32toi16(input []float32, output []int16, scale float32) {
 		n = len(input)
 	}
 	for i, v := range input[:n] {
-		output[i] = int16(v * scale)
+		output[i] = clip16(v * scale)
 	}
 }
 
 // F32toi16ble converts float32 to int16 stored in a byte slice. The values
-// are stored in little-endian.
+// are stored in little-endian and clipped if they do not fit.
 func F32toi16ble(input []float32, output []byte, scale float32)
 func f32toi16ble(input []float32, output []byte, scale float32) {
 	n := len(output) / 2
@@ -129,7 +141,7 @@ func f32toi16ble(input []float32, output []byte, scale float32) {
 		n = len(input)
 	}
 	for i, v := range input[:n] {
-		v := uint16(int16(v * scale))
+		v := uint16(clip16(v * scale))
 		output[i*2] = uint8(v & 0xff)
 		output[i*2+1] = uint8(v >> 8)
 	}
diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index 5eb6cdf..f77779e 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -479,6 +479,13 @@ TEXT ·F32toi16(SB), NOSPLIT, $0-52
 	MOVSS  scale+48(FP), X8
 	PSHUFD $0, X8, X8
 
+	// Upper limit, applied before the conversion because CVTTPS2PL
+	// turns everything beyond 32 bits into the most negative integer.
+	// The lower limit is left to PACKSSLW.
+	MOVL   $0x46fffe00, BX // 32767.0
+	MOVD   BX, X9
+	PSHUFD $0, X9, X9
+
 	CMPQ AX, CX
 	JGE  f32toi16_min_len
 	MOVQ AX, CX
@@ -502,6 +509,10 @@ f32toi16_loop:
 	MULPS     X8, X1
 	MULPS     X8, X2
 	MULPS     X8, X3
+	MINPS     X9, X0
+	MINPS     X9, X1
+	MINPS     X9, X2
+	MINPS     X9, X3
 	CVTTPS2PL X0, X0
 	CVTTPS2PL X1, X1
 	CVTTPS2PL X2, X2
@@ -523,7 +534,10 @@ f32toi16_step:
 	MOVSS     (SI), X0
 	LEAQ      (DI)(AX*2), BX
 	MULSS     X8, X0
-	CVTTSS2SL X0, BP
+	MINSS     X9, X0
+	CVTTPS2PL X0, X0
+	PACKSSLW  X0, X0
+	MOVD      X0, BP
 	MOVW      BP, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
-- 
2.43.0


From 91ea982949960fcd836a8a7cd4d5db32543d4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 04/20] fix: VScaleF32 left the tail of the slice unscaled

With AVX2 or SSE2 enabled the scalar loop compared against the length of
the vector part and so stopped after one element.
---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From cbe59a7af83c61a5453f5b5704758fe6f9348354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 05/20] fix: VScaleC64 panicked on empty slices and on more
 than 2^25 samples

---
 dsp/math32.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..478bccf 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,8 +61,11 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
-	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
-	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
+	in := unsafe.Slice((*float32)(unsafe.Pointer(&input[0])), len(input)*2)
+	out := unsafe.Slice((*float32)(unsafe.Pointer(&output[0])), len(output)*2)
 	VScaleF32(in, out, scale)
 }
 
-- 
2.43.0


From 08f145b67f8169bd05c1918333496ed368c84367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 06/20] fix: VAbsC64 and the portable Ui8tof32 panicked on
 empty slices

---
 dsp/conversion.go | 2 +-
 dsp/math32.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index b27dfd9..cf51460 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,7 +43,7 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
 	}
diff --git a/dsp/math32.go b/dsp/math32.go
index 478bccf..6580746 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -86,7 +86,7 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
 	}
-- 
2.43.0


From b221c4bf8d834785d6cd91e4ae9ff8f4dd2ac1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 07/20] fix: I8tof32 and F32toi16 clobbered the caller's frame
 pointer

---
 dsp/conversion_amd64.s | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index f77779e..b3c6428 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -334,12 +334,12 @@ i8tof32_min_len:
 	JGE  i8tof32_stepper
 
 	// Align output to 16-byte boundary
-	MOVQ DI, BP
-	ANDQ $15, BP
-	SHRQ $2, BP
+	MOVQ DI, R8
+	ANDQ $15, R8
+	SHRQ $2, R8
 	JZ   i8tof32_aligned
 	MOVQ $16, DX
-	SUBQ BP, DX
+	SUBQ R8, DX
 
 i8tof32_align:
 	MOVBQSX  (SI), BX
@@ -364,8 +364,8 @@ i8tof32_aligned:
 	CMPB ·useSSE4(SB), $1
 	JNE  i8tof32_nosse4
 
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse4_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -401,8 +401,8 @@ i8tof32_sse4_loop:
 	JMP  i8tof32_stepper
 
 i8tof32_nosse4:
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse2_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -537,8 +537,8 @@ f32toi16_step:
 	MINSS     X9, X0
 	CVTTPS2PL X0, X0
 	PACKSSLW  X0, X0
-	MOVD      X0, BP
-	MOVW      BP, (BX)
+	MOVD      X0, R8
+	MOVW      R8, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
 	CMPQ      AX, DX
-- 
2.43.0


From 32ba21d940643460998080f028394ebc89952d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 08/20] fix: FMA was reported although the OS does not save the
 YMM registers

---
 dsp/internal/cpu/cpu_x86.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsp/internal/cpu/cpu_x86.go b/dsp/internal/cpu/cpu_x86.go
index fd1217a..7c30a77 100644
--- a/dsp/internal/cpu/cpu_x86.go
+++ b/dsp/internal/cpu/cpu_x86.go
@@ -86,12 +86,6 @@ func doinit() {
 	// e.g. setting the xsavedisable boot option on Windows 10.
 	X86.HasOSXSAVE = isSet(ecx1, cpuid_OSXSAVE)
 
-	// The FMA instruction set extension only has VEX prefixed instructions.
-	// VEX prefixed instructions require OSXSAVE to be enabled.
-	// See Intel 64 and IA-32 Architecture Software Developer’s Manual Volume 2
-	// Section 2.4 "AVX and SSE Instruction Exception Specification"
-	X86.HasFMA = isSet(ecx1, cpuid_FMA) && X86.HasOSXSAVE
-
 	osSupportsAVX := false
 	// For XGETBV, OSXSAVE bit is required and sufficient.
 	if X86.HasOSXSAVE {
@@ -102,6 +96,13 @@ func doinit() {
 
 	X86.HasAVX = isSet(ecx1, cpuid_AVX) && osSupportsAVX
 
+	// The FMA instruction set extension only has VEX prefixed instructions.
+	// VEX prefixed instructions require OSXSAVE to be enabled, and the ones
+	// of FMA operate on XMM and YMM registers, so the OS has to support those.
+	// See Intel 64 and IA-32 Architecture Software Developer’s Manual Volume 2
+	// Section 2.4 "AVX and SSE Instruction Exception Specification"
+	X86.HasFMA = isSet(ecx1, cpuid_FMA) && osSupportsAVX
+
 	if maxID < 7 {
 		return
 	}
-- 
2.43.0


From 2f26352f361fa4bc32f7d85d14ce89b9834186cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 09/20] fix: AVX2 kernels were selected on processors with AVX
 only

---
 dsp/cpu_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/cpu_amd64.go b/dsp/cpu_amd64.go
index 6b7deab..9d6b11e 100644
--- a/dsp/cpu_amd64.go
+++ b/dsp/cpu_amd64.go
@@ -12,6 +12,6 @@ var (
 
 func init() {
 	useSSE4 = cpu.X86.HasSSE41
-	useAVX2 = cpu.X86.HasAVX
+	useAVX2 = cpu.X86.HasAVX2
 	useSSE2 = cpu.X86.HasSSE2
 }
-- 
2.43.0


From e5d37968eaed766ed11faeef294c97227f62b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 10/20] fix: IIR filter constructors modified and kept the
 caller's coefficients

---
 dsp/filter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..50c0fef 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,6 +19,9 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Do not touch or keep the slices of the caller.
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -37,6 +40,9 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Do not touch or keep the slices of the caller.
+	bCoef = append([]float32(nil), bCoef...)
+	aCoef = append([]float32(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -55,6 +61,9 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Do not touch or keep the slices of the caller.
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
-- 
2.43.0


From 8037c7c7afeb24888f0297e1e5bf461069643a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 11/20] fix: IIR filters of order 0 panicked

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 50c0fef..a6c5ad0 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -88,8 +88,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -104,8 +106,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -120,8 +124,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From a69a56bc0e05eb5a24df92c7ce8930e206dad0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 12/20] fix: AX.25 frame information was overwritten by later
 frames

---
 dsp/ax25/hdlc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..e81ae0a 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,8 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		// The receive buffer is reused for the next frame.
+		frame.Info = append([]byte{}, buf[1:]...)
 	}
 	return &frame
 }
-- 
2.43.0


From e3651bf5dc1048068f895c2390e41cb5e7b21c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 13/20] fix: FlexNet callsigns were unpacked with wrong masks

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index e81ae0a..cad47a8 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From 1f9f9ffd820494afbedf1206745aeb343afdbe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 14/20] fix: BorIP packets larger than the caller's slice, with
 a partial sample or too short broke ReadSamples

A packet with more samples than the slice panicked instead of keeping the
rest, a trailing partial pair was completed with stale bytes or panicked, and
the bytes of a short packet were delivered as samples by the next call.
---
 borip/packet.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..b7aef1f 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -52,7 +52,7 @@ func (rd *PacketReader) Header() PacketHeader {
 }
 
 func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
-	if rd.bufI >= rd.bufN {
+	if rd.bufN-rd.bufI < 4 {
 		n, _, err := rd.conn.ReadFrom(rd.buf)
 		if err != nil {
 			return 0, err
@@ -61,6 +61,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		rd.bufN = n
 		if rd.withHeaders {
 			if n < packetHeaderSize {
+				rd.bufN = 0
 				return 0, ErrShortPacket
 			}
 			rd.header.Flags = rd.buf[rd.bufI]
@@ -71,7 +72,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		// rd.bufN = n - (n & 7)
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for idx < len(samples) && rd.bufN-rd.bufI >= 4 {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From cf344dcb4ec03a1b981f7af66925e8828e8f0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 15/20] fix: BorIP SetRate panicked on a response without the
 actual rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 3966159..4ef9a83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -190,7 +190,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From dc09748641740a9c84d4ec8d5fb8bba0ba700b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 16/20] fix: BorIP devices without the optional serial number
 were refused

---
 borip/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 4ef9a83..e3240b5 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,15 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	if len(deviceParts) > 7 {
+		// The serial number is optional.
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From ccc00c275e0a0193d0f4edca520d241a8068eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 17/20] fix: Linear and LinearF32 panic for negative, NaN and
 huge positions

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..5da37aa 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && float64(x) < float64(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From c8164211609c95e11e727f0acce934d6317cb4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 18/20] fix: Hermite and Optimal2x interpolators take the wrong
 samples at negative positions

---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 5da37aa..9b4f13a 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From 75dfcc75342d59e4b75384f0cd6204a4c79a9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 19/20] fix: cosine windows of length 1 are NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..fa5291c 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -69,6 +77,10 @@ func window(output []float64, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
@@ -90,6 +102,10 @@ func windowF32(output []float32, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
-- 
2.43.0


From 9a34987ae5c8e812b0212bfd66fd57d4f4d71f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 20/20] fix: FastAtan2_2 returns NaN when y/x overflows

---
 dsp/math32.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 6580746..04715cf 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -178,9 +178,11 @@ func fastAtan2_2(y, x float32) float32 {
 		}
 		return atan
 	}
-	atan := pi2 - z/(zz+0.28)
+	// Use the inverse here as y / x can overflow
+	z = x / y
+	atan := z / (1.0 + 0.28*z*z)
 	if y < 0.0 {
-		return atan - math.Pi
+		return -pi2 - atan
 	}
-	return atan
+	return pi2 - atan
 }
-- 
2.43.0

