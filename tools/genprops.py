#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the records stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    rec = dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: rec["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: rec["anchors"]["observe_at"] = list(observe)
    rec["anchors"]["hook_needed"] = None
    P.append(rec)

prop("C01", "8-bit to 16-bit sample conversion is exact for every buffer",
 "Ui8toi16 and Ui8toi16b turn each of the first min(input, output) unsigned 8-bit samples b into the 16-bit sample whose high and low byte are both b-128 (wrapping), and change nothing else. This holds for every length combination, every alignment of the two buffers and every byte content, and Ui8toi16b is the same conversion written to a byte buffer of 2 bytes per sample.",
 ["inputs", "configurations"], "all byte contents, all input/output length combinations, all buffer alignments",
 "The unit tests run one 255/256-byte ramp with two or three alignments; the assembly has separate head, SIMD-block, tail and odd-address paths selected by length and address.",
 ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("Ui8toi16/Ui8toi16b assembly", "dsp/conversion_amd64.s"), ("ui8toi16/ui8toi16b reference", "dsp/conversion.go")], observe=["output slice after the call"])
prop("C02", "8-bit samples convert to float and complex exactly",
 "Ui8tof32 and Ui8toc64 map each unsigned 8-bit sample b to exactly b-128, and I8tof32 and I8toc64 map each signed 8-bit sample to exactly its value, for the first min(input, output) elements (complex variants: interleaved I,Q pairs, an odd trailing sample is ignored) and change nothing else. This holds for every length combination, buffer alignment, content and CPU feature setting.",
 ["inputs", "configurations"], "all contents, lengths, alignments; SSE4.1 and non-SSE4.1 code paths",
 "Tests use one ramp of 255/256 samples; the SSE4 subtests always skip, so that path never runs, and only a couple of alignments are reached.",
 ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s"], [("Ui8tof32/I8tof32 scalar, SSE2 and SSE4.1 loops", "dsp/conversion_avo_amd64.s, dsp/conversion_amd64.s"), ("I8toc64", "dsp/conversion.go")])
prop("C03", "Little-endian integer samples decode to the right float",
 "I16bleToF32, I16bleToF64 and I32bleToF32 decode each little-endian signed integer of the input and store value*scale (the integer converted to the target float type and then multiplied, each correctly rounded) for the first min(whole samples in input, output) elements, changing nothing else. This holds for every content, scale, length combination, alignment and CPU feature setting.",
 ["inputs", "configurations"], "all byte contents, scales, lengths, alignments, CPU feature settings",
 "Tests decode about ten 16-bit values with two scales; I32bleToF32 has no test, and the SSE4.1 loops never run.",
 ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("I16bleToF64/I16bleToF32 SSE2/SSE4.1/scalar loops", "dsp/conversion_amd64.s"), ("I32bleToF32", "dsp/conversion.go")])
prop("C04", "Float to integer sample conversion depends only on the sample",
 "F32toi16 and F32toi16ble store, for each of the first min(input, output) samples, value*scale truncated toward zero whenever the truncated value fits in 16 bits, and values beyond that range are clipped to -32768 or 32767; F32toi16ble writes the same integer as two little-endian bytes. What a NaN becomes is not specified. The result for a sample, NaN included, does not depend on its position, the buffer lengths or the alignment, and nothing else is changed.",
 ["inputs", "configurations"], "all float32 samples and scales, lengths, alignments",
 "Tests use in-range ramps with a single scale; the vector block and the scalar tail use different conversion instructions, so they can disagree for particular values and positions.",
 ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("F32toi16 vector loop and scalar tail", "dsp/conversion_amd64.s"), ("f32toi16/f32toi16ble reference", "dsp/conversion.go")])
prop("C05", "Sample serialisation round-trips",
 "I16ToBLE writes each int16 as two little-endian bytes and F32Tof32ble each float32 as the four little-endian bytes of its IEEE-754 bits, so decoding gives back exactly the values written, including negative zero, infinities and NaN payloads; I16bleToF32 and F32toi16ble with scale 1 also round-trip every 16-bit sample. C64toi8 followed by I8toc64 returns every complex sample whose parts are integers in [-128,127]; only the first min(input, output) samples are written.",
 ["inputs"], "all values and all length combinations",
 "I16ToBLE, F32Tof32ble, C64toi8 and I8toc64 have no unit tests at all; the round trip must hold for every bit pattern.",
 ["dsp/conversion.go", "dsp/conversion_amd64.s"], [("I16ToBLE, F32Tof32ble, C64toi8, I8toc64", "dsp/conversion.go")])
prop("C06", "Vector arithmetic is element-wise and exact",
 "VScaleF32, VScaleC64, VMulC64xF32, VMulC64, VAddF32, VAddC64 and VAbsC64 compute, for each of the first min-of-all-lengths elements, exactly the IEEE result of their documented element-wise formula (scale, multiply, accumulate into output, magnitude; a complex product may be evaluated in single or in double precision before it is rounded) and leave every other element unchanged. This holds for every length combination including empty slices, every content, in-place use and every CPU feature setting.",
 ["inputs", "configurations"], "all contents, scales, lengths (including 0), alignments, in-place use, CPU feature settings",
 "Only VScaleF32 (one ramp, 256/257 elements) and VAbsC64 (6 values) are tested; the AVX2 and SSE2 loops never run and VMul*/VAdd*/VScaleC64 have no test.",
 ["dsp/math32.go", "dsp/math32_amd64.s"], [("VScaleF32 AVX2/SSE2/scalar loops", "dsp/math32_amd64.s"), ("Go vector loops", "dsp/math32.go")])
prop("C07", "VMaxF32 and VMinF32 return the true extremum",
 "For every slice without NaN, VMaxF32 returns a value that is an element of the slice and is not less than any element, VMinF32 one that is not greater than any element, and for an empty slice they return -Inf and +Inf. This holds for every length, every position of the extremum, every alignment and every CPU feature setting.",
 ["inputs", "configurations"], "all non-NaN contents, lengths, CPU feature settings",
 "Tests use one random vector of 123 and single spikes in length 1024, and only in the scalar code path because the feature flags are never set.",
 ["dsp/math32.go", "dsp/math32_amd64.s"], [("VMaxF32/VMinF32 AVX2/SSE2/scalar loops and reductions", "dsp/math32_amd64.s")])
prop("C08", "Assembly kernels stay inside their slices and keep the caller's state",
 "No exported conversion or vector function reads or writes memory outside the elements of the slices it is given, performs a misaligned aligned-store, or panics, for any combination of slice lengths (including empty and unequal) and alignments. On return the caller's frame pointer and stack pointer are what they were before the call.",
 ["inputs", "configurations"], "all length combinations and alignments, all CPU feature settings",
 "An overread or a frame-pointer clobber is invisible to an ordinary assertion; only particular lengths and alignments trigger it.",
 ["dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32_amd64.s", "dsp/conversion.go", "dsp/math32.go"], [("length minimum and loop bounds in each kernel", "dsp/*_amd64.s")])
prop("C09", "CPU features are used only when present and enabled",
 "After detection, a feature is reported only if the CPU's identification bits announce it, and AVX, AVX2 and FMA only if the operating system also saves the registers they need; an option string disables exactly the features it names with off (all: every optional one), never enables a feature the CPU lacks, and never disables a required one. A kernel executes instructions of an instruction-set extension (SSE4.1, AVX, AVX2) only when the flag it consults implies that extension was detected.",
 ["configurations", "inputs"], "all values of the CPU identification registers, all option strings within the bound, all feature combinations",
 "Tests run on one CPU with one setting; the detection and option code is not exercised by any test here.",
 ["dsp/internal/cpu/cpu.go", "dsp/internal/cpu/cpu_x86.go", "dsp/cpu_amd64.go", "dsp/math32_amd64.s", "dsp/conversion_amd64.s"], [("doinit, processOptions", "dsp/internal/cpu"), ("useSSE4/useAVX2/useSSE2", "dsp/cpu_amd64.go")])
prop("C10", "Fast float arctangents are accurate in all quadrants",
 "For all finite y, x whose larger magnitude lies in [1e-6, 1e18], FastAtan2 is within 0.0102 radians and FastAtan2_2 within 0.005 radians of the true angle atan2(y, x) (either of Pi and -Pi will do on the negative x axis when y is a zero), on y's side of the x axis and within Pi in magnitude, both up to 1e-5. FastAtan2(0,0) and FastAtan2_2(0,0) are 0, points on the y axis give +-Pi/2, and negating a non-zero y negates the result.",
 ["inputs"], "all float32 pairs in the stated range",
 "Tests sample a 0.01 grid over [-1,1]^2; the error bound is over a continuum of ratios and magnitudes.",
 ["dsp/math32.go"], [("fastAtan2 / fastAtan2_2 polynomial and rational approximations", "dsp/math32.go")])
prop("C11", "Fixed-point arctangents are accurate, bounded and never fault",
 "For all integers y, x with magnitude at most 2^31, FastAtan2Fixed is within 0.08 radians and Atan2LUT within 0.005 radians of the true angle (in units of Pi/2^14), both stay within [-2^14, 2^14], have the sign of y, return 0 for (0,0), and never panic. Negating a non-zero y negates the result.",
 ["inputs"], "all integer pairs up to 2^31 in magnitude, equality cases of table edges included",
 "Tests sample a stride-64 grid over 16 bits; the table index boundary, division rounding and octant edges are hit only by particular ratios.",
 ["dsp/mathfixed.go"], [("Atan2LUT table index and quadrant fix-up", "dsp/mathfixed.go"), ("FastAtan2Fixed", "dsp/mathfixed.go")], state=[("atanLUT", "arctangent table built at init", "dsp/mathfixed.go")])
prop("C12", "FM demodulation is the polar discriminator of consecutive samples",
 "Demodulate writes for every input sample the fast arctangent of that sample times the conjugate of the previous one (the previous sample of the first one being the last sample of the preceding call, initially zero) and returns the number of samples written. Cutting a stream into calls at any points gives bit-identical output to one call, the input is not modified, and PolarDiscriminator32 and FastPhase32 agree with the same arctangent. PolarDiscriminator and Phase32 are the arctangent of the math package, in double, of the same product and of the same number.",
 ["inputs", "histories"], "all sample values, all ways to cut a stream into calls, including empty calls",
 "The one test feeds 256 samples in a single call and compares two names of the same code; splitting and state carry-over are untested.",
 ["dsp/demod.go", "dsp/math32.go"], [("fmDemodulate and its carried sample", "dsp/demod.go")], state=[("pre", "last sample of the previous call", "dsp/demod.go")])
prop("C13", "Downsampling filters sum exact groups across calls",
 "LowPassDownsampleComplexFilter outputs the sum of each consecutive group of Downsample input samples; LowPassDownsampleRationalFilter outputs a sample each time the accumulated Slow steps reach Fast, equal to the sum of the inputs since the last output times Slow/Fast, so after k inputs it has produced floor(k*Slow/Fast) outputs. A partial group is carried to the next call, so cutting a stream at any points gives the same output stream, and a call never yields more samples than it was given.",
 ["inputs", "histories"], "all sample values, all cuts of the stream, all factors within the bound",
 "Tests compare two names of the same code over one 256-sample call with one factor.",
 ["dsp/downsample.go"], [("lowPassDownsampleComplexFilter / lowPassDownsampleRationalFilter", "dsp/downsample.go")], state=[("now/sum, prevIndex", "carried partial group", "dsp/downsample.go")])
prop("C14", "Rotate-by-90 filters multiply sample k by i^k",
 "Rotate90Filter replaces the complex sample at index k by that sample times i^k, and I32Rotate90Filter does the same for interleaved 32-bit integer I,Q pairs, in place and exactly, for every buffer holding a multiple of four complex samples. The same slice is returned with its length unchanged, and applying the filter four times restores the original samples.",
 ["inputs"], "all sample values, all lengths that are multiples of four complex samples",
 "The test compares the filter with itself on one ramp; the integer filter has no test.",
 ["dsp/util.go"], [("rotate90Filter / i32Rotate90Filter", "dsp/util.go")])
prop("C15", "IIR filters implement their difference equation across calls",
 "An IIRFilter, ComplexIIRFilter or ComplexIIRFilter32 built from b and a outputs y[n] = (b0 x[n] + ... + bM x[n-M] - a1 y[n-1] - ... - aM y[n-M]) / a0 with zero initial history, for every order including 0, and cutting the stream into calls at any points does not change the output. Constructing a filter does not modify the caller's coefficient slices, later changes to them do not affect the filter, and filters are independent of one another; mismatched or empty coefficient lists panic.",
 ["inputs", "histories"], "all coefficients with a0 != 0, all inputs, all cuts, orders within the bound",
 "There are no tests of the IIR filters at all.",
 ["dsp/filter.go"], [("NewIIRFilter/NewComplexIIRFilter/NewComplexIIRFilter32 normalisation", "dsp/filter.go"), ("Filter history shift", "dsp/filter.go")], state=[("pIn, pOut", "input and output history", "dsp/filter.go")])
prop("C16", "Biquad filtering follows the difference equation across calls",
 "BiQuadFilter.Filter outputs y[n] = (B0 x[n] + B1 x[n-1] + B2 x[n-2] - A1 y[n-1] - A2 y[n-2]) / A0 with zero initial history, and FilterF32 the same recursion kept in double precision with each output rounded to float32. Cutting a stream into calls at any points gives bit-identical output, Filter may be used in place, and filters do not share state.",
 ["inputs", "histories"], "all coefficients with A0 != 0, all inputs, all cuts, in-place use",
 "There are no tests of the biquad filters.",
 ["dsp/biquad.go"], [("BiQuadFilter.Filter / FilterF32", "dsp/biquad.go")], state=[("prevIn, prevOut", "history", "dsp/biquad.go")])
prop("C17", "Biquad designs have their specified gains and are stable",
 "For every 0 < f < sampleRate/2 and q > 0 the biquad constructors give: low-pass gain 1 at DC and 0 at Nyquist, high-pass 0 and 1, peak-gain band-pass 1 and skirt-gain band-pass q at the centre with 0 at DC and Nyquist, notch 0 at the centre and 1 at DC and Nyquist, all-pass magnitude 1 at every frequency, peaking EQ 10^(dBGain/20) at the centre and 1 at DC and Nyquist, low shelf 10^(dBGain/20) at DC and 1 at Nyquist and high shelf the reverse. All designs have both poles strictly inside the unit circle (shelves: for slopes in (0,1]), and low-pass and high-pass have magnitude q at the cutoff. Each is the bilinear transform, prewarped to its frequency, of the analogue filter written above it, with 1/Q of a shelf slope S being sqrt((A+1/A)(1/S-1)+2) and A = 10^(dBGain/40).",
 ["inputs"], "all sample rates, frequencies, q, gains and slopes in the stated ranges",
 "There are no tests of the designs, and gain and stability are claims over a continuum of parameters.",
 ["dsp/biquad.go"], [("the nine biquad constructors", "dsp/biquad.go")])
prop("C18", "DC blockers follow their recursion however they are driven",
 "DCFilter and DCFilter32 compute w[n] = x[n] + a w[n-1], y[n] = w[n] - w[n-1] from w = 0; Filter over any cutting of a stream, FilterOne sample by sample and any mixture of the two give bit-identical output. Filter may be used in place and filters do not share state.",
 ["inputs", "histories"], "all inputs, coefficients, interleavings of Filter and FilterOne, in-place use",
 "There are no tests of the DC filters.",
 ["dsp/filter.go"], [("DCFilter/DCFilter32 Filter and FilterOne", "dsp/filter.go")], state=[("w", "integrator state", "dsp/filter.go")])
prop("C19", "Goertzel filters compute the DFT bin of what was fed",
 "For each target frequency f a Goertzel bank uses bin k, the nearest integer to blockSize*f/sampleRate, and after feeding blockSize samples Complex returns the DFT sum of x[n] e^(-2 pi i k n / blockSize) and Magnitude its squared absolute value (Goertzel32 rounds to float32; ComplexGoertzel accepts complex input). Cutting the block into several Feed calls changes nothing, each frequency's result is independent of the other frequencies in the bank, and after Reset a filter behaves as new.",
 ["inputs", "histories"], "all samples, all cuts, all banks and block sizes within the bound",
 "The one test feeds one sine of 1024 samples to Goertzel; Goertzel32 and ComplexGoertzel, Reset and split feeding have no direct test.",
 ["dsp/goertzel.go"], [("Feed recurrence, Magnitude, Complex, Reset", "dsp/goertzel.go")], state=[("q1,q2,q1i,q2i", "recurrence state", "dsp/goertzel.go")])
prop("C20", "The sliding DFT equals the DFT of the last n samples",
 "After each sample, SDFT.Filter (and SDFT32.Filter up to rounding) returns the window-weighted sum of DFT bins k-len(w)/2 ... of the last n samples (missing ones being zero), the newest sample having phase factor e^(2 pi i k/n), with bin indices taken modulo n; with no window it is bin k alone. This stays true after any number of samples.",
 ["inputs", "histories"], "all sample streams, all bins k in 0..n-1 and windows within the bound",
 "There are no tests of the sliding DFT.",
 ["dsp/sdft.go"], [("ring buffer and rotating accumulators", "dsp/sdft.go")], state=[("x, s, i", "ring buffer, accumulators, position", "dsp/sdft.go")])
prop("C21", "Window functions are symmetric, normalised and finite",
 "For every length of at least 1, the triangle, Hamming, Hanning, Blackman and Nuttall windows fill the whole slice with finite values given by their cosine-sum (or triangle) formula: symmetric about the middle, between -1e-6 and 1+1e-6, with the peak 1 at the middle of odd lengths. Each F32 variant equals its double-precision counterpart rounded to float32.",
 ["inputs"], "all window lengths within the bound and every index",
 "There are no tests of the window functions.",
 ["dsp/window.go"], [("window/windowF32 and the named windows", "dsp/window.go")])
prop("C22", "Interpolators reproduce samples and never fault",
 "Every interpolator accepts any slice and any x, including negative, huge, infinite and NaN, without panicking and depends only on the samples around x, samples outside the slice counting as zero. Linear and LinearF32 give for x in [0, len) the straight line between neighbours and 0 for x outside; Hermite4p3o returns the sample exactly at integer x and reproduces straight lines between interior points; the Optimal2x functions are their published polynomials, and each F32 variant agrees with the double version up to rounding.",
 ["inputs"], "all sample values, lengths within the bound and all x",
 "There are no tests of the interpolators.",
 ["dsp/interpolate.go"], [("Linear, Hermite4p3o, Optimal2x4p4o, Optimal2x6p5o and F32 variants", "dsp/interpolate.go")])
prop("C23", "DTMF detection reports the strongest row and column of a block",
 "Feed returns row*columns+column where row and column are the indices of the largest (first on ties) Goertzel magnitudes of the windowed block over the low and high frequencies, together with the smaller of the two maxima, always a valid key index (for magnitudes that are numbers). The result depends only on the samples of this call (at most blockSize of them), not on earlier calls. Keypad lists the 16 keys in that order for the standard frequencies, which are 697, 770, 852, 941 and 1209, 1336, 1477, 1633 Hz.",
 ["inputs", "histories"], "all sample blocks, all call histories, frequency sets within the bound",
 "dsp/dtmf has no tests.",
 ["dsp/dtmf/dtmf.go", "dsp/goertzel.go"], [("DTMF.Feed and max", "dsp/dtmf/dtmf.go")])
prop("C24", "AX.25 frames are accepted only with a correct frame check sequence",
 "A received frame is delivered only if its last two bytes are the CCITT CRC (X.25: polynomial 0x1021 reflected, initial and final 0xffff) of the bytes before them, and every frame of acceptable length with a correct check sequence is not rejected by the check. In particular no frame differing from a valid one by up to three bit errors or by a single burst of up to 16 bits is delivered.",
 ["inputs"], "all frame contents and error patterns, lengths within the bound",
 "dsp/ax25 has no tests; the 256-entry table and the residue constant must be right for every byte sequence.",
 ["dsp/ax25/crc.go", "dsp/ax25/hdlc.go"], [("crcCcittTable, checkCrcCcitt", "dsp/ax25/crc.go")])
prop("C25", "HDLC deframing recovers every transmitted frame",
 "Fed the bits of any valid frame of 17 to 512 bytes sent with bit stuffing between flags (least significant bit first, shared or repeated flags allowed), Feed returns exactly one frame, at the closing flag, carrying those bytes, whatever was received before the opening flag. A run of seven or more ones aborts the frame in progress, frames over 512 bytes are dropped without disturbing the next, and no bit sequence whatsoever makes the decoder panic or return a frame without a preceding flag.",
 ["inputs", "histories"], "all frame contents, all preceding bit histories, all bit sequences",
 "dsp/ax25 has no tests; stuffing, abort and buffer limits depend on bit patterns straddling byte and flag boundaries.",
 ["dsp/ax25/hdlc.go"], [("AX25.Feed bit state machine", "dsp/ax25/hdlc.go")], state=[("bitstream, inFrame, rxBits, rxBitI, rxBuf", "deframer state", "dsp/ax25/hdlc.go")])
prop("C26", "AX.25 frame fields are decoded as the protocol defines",
 "A delivered frame carries the destination, source and repeater callsigns (seven-bit shifted, space-padded) and SSIDs, the V1/command bits, the control-field type, sequence numbers, poll/final bit and subtype, the PID and the information bytes at their protocol positions, and for FlexNet-compressed headers with a callsign the 6-bit packed callsign and SSID. A frame once returned never changes, whatever is fed to the decoder afterwards.",
 ["inputs", "histories"], "all frame contents with valid FCS, all later bit sequences, lengths within the bound",
 "dsp/ax25 has no tests.",
 ["dsp/ax25/hdlc.go"], [("processFrame, parseAddress", "dsp/ax25/hdlc.go")])
prop("C27", "BorIP packets are delivered completely and in order",
 "ReadSamples delivers the 16-bit little-endian I/Q pairs of each received packet in order, each as the complex number of its two values, at most as many as the caller's slice holds, keeping the rest of the packet for the next calls before reading another; Header is the header of the packet being delivered when headers are enabled. No packet of any size or content and no slice length makes it panic or deliver bytes that were not in the packet; a packet shorter than a header is reported as ErrShortPacket and discarded, and a trailing partial pair is ignored. The flag constants name the eight bits of the first header byte.",
 ["inputs", "histories"], "all packet contents and sizes, all slice lengths, all sequences of packets and calls within the bound",
 "borip has no tests.",
 ["borip/packet.go"], [("PacketReader.ReadSamples", "borip/packet.go")], state=[("buf, bufI, bufN", "current packet", "borip/packet.go")])
prop("C28", "BorIP client survives and correctly reads every server response",
 "Whatever line the server sends, no client method panics: it returns either the value carried by a well-formed response or an error, and for the methods that change something or start or stop the stream a response whose status is not OK is returned as an error. SetFrequency's four numbers are zero where the response has none. A DEVICE response in the documented format, with or without the optional serial number, yields the device's fields in order.",
 ["inputs"], "all response lines within the length bound, for every client method",
 "borip has no tests; responses come from the network.",
 ["borip/client.go"], [("parseAndCheck, parseDeviceString and the command methods", "borip/client.go")])
prop("C29", "BorIP client sends each command as one well-formed line",
 "For arguments without line breaks, every client method sends exactly one newline-terminated line consisting of its command word followed by its arguments separated by single spaces (numbers in plain decimal notation), flushes it, and then reads exactly one response line. Running state follows the outcome: Close sends STOP only if a GO succeeded without a later successful STOP, releases a selected device with DEVICE !, and always closes the connection.",
 ["inputs", "histories"], "all argument values within the bound, all outcomes of Go/Stop/SelectDevice before Close",
 "borip has no tests.",
 ["borip/client.go"], [("BorIP.command, Go, Stop, SelectDevice, Close", "borip/client.go")], state=[("running, device", "client session state", "borip/client.go")])
prop("C30", "The BorIP server streams numbered packets and survives its clients",
 "The server sends samples in packets with a 4-byte header whose sequence number increases by one per packet and whose stream-start flag is set only on the first, never hands one device to two clients, and no command sequence from a client panics it.",
 ["histories", "schedules", "inputs"], "all command sequences and concurrent clients",
 "The server is not built or tested here.",
 ["boripserver/main.go", "boripserver/devices.go"], [("handleCommand, startStreaming, device.open/close", "boripserver")])
prop("C31", "ARM and ARM64 assembly agrees with the portable code",
 "On arm and arm64 every exported conversion, vector and filter function gives the same result as the portable Go code of the same name, for every content, length and CPU feature setting.",
 ["inputs", "configurations"], "all contents, lengths, feature settings on arm and arm64",
 "Tests run on amd64 only.",
 ["dsp/conversion_arm.s", "dsp/conversion_arm64.s", "dsp/math32_arm.s", "dsp/math32_arm64.s", "dsp/demod_arm.s", "dsp/downsample_arm.s", "dsp/mathfixed_arm.s", "dsp/util_arm.s"], [("ARM kernels", "dsp/*_arm.s, dsp/*_arm64.s")])
prop("C32", "AX.25 addresses and codes print as the protocol writes them",
 "An Address prints as its callsign, a dash and its SSID in decimal, so that a received address reads as it was sent and two different addresses of letters and digits never print alike. Every PID, frame type, unnumbered type and supervisory type with a name in the protocol prints as that name, and any other value as its two lower-case hexadecimal digits.",
 ["inputs"], "all callsigns within the length bound, all SSIDs, all 256 values of each code",
 "dsp/ax25 has no tests.",
 ["dsp/ax25/constants.go", "dsp/ax25/hdlc.go"], [("String methods and name tables", "dsp/ax25/constants.go"), ("Address.String", "dsp/ax25/hdlc.go")])
prop("C33", "Separate filters, decoders and calls can run in concurrent goroutines",
 "Two goroutines that each use their own filter, detector, decoder, packet reader or client, or call the package's functions with their own outputs, never use memory that the other writes, even when both were built from the same coefficients, window or frequency slices and read the same inputs: there is no data race, and each gets what it would get alone, whatever the schedule.",
 ["schedules", "inputs"], "all schedules of two goroutines, all inputs within the bound, every exported operation",
 "Tests are sequential; hidden shared scratch memory gives right answers there.",
 ["dsp", "dsp/dtmf/dtmf.go", "dsp/ax25/hdlc.go", "borip/packet.go", "borip/client.go"], [("constructors and package variables", "dsp")])
prop("C34", "Frequency-domain windows of a sliding DFT equal the time-domain ones",
 "NewSDFT(k, n, w) with w = HammingFreqCoeff, HanningFreqCoeff or BlackmanFreqCoeff gives, once n samples have been filtered, bin k of the DFT of the last n samples weighted by the first n values of the time-domain window (HammingWindow, HanningWindow, BlackmanWindow) of n+1 samples, within rounding, and NewSDFT32 with the 32-bit coefficients likewise: the coefficients are symmetric and the 32-bit ones are the rounded 64-bit ones. This holds for every block of samples in [-1,1], every bin, also those whose neighbours wrap around, and every n not less than the number of coefficients minus one.",
 ["inputs"], "all sample blocks, all bins, n within the bound, both precisions",
 "No test covers the sliding DFT or the coefficient tables.",
 ["dsp/window.go", "dsp/sdft.go"], [("FreqCoeff tables", "dsp/window.go"), ("NewSDFT, NewSDFT32", "dsp/sdft.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
