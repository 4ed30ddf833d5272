TECH = "Symbolic execution of the compiled Go (SSA) and amd64 assembly (machine code) into SMT; z3 decides each obligation for all values within the bounds; models replayed natively"
TRUST = ("Within the stated bounds the verdict is for all values. Trusted: go/ssa, objdump decoding, this engine's "
         "instruction semantics (cross-checked by native concordance runs on every check), z3. Sat models count as violations only when the "
         "compiled code reproduces them; obligations the solver cannot decide are listed as undecided in the evidence.")
NOTES = ("Every check rebuilds a copy of /repo's working tree together with the harnesses in /verif/harness (through go build -overlay), "
         "loads it as SSA, disassembles the assembly kernels of the test binary and runs them symbolically. See DESIGN.md.")
NA = {
 "C30": "The server package does not compile at this commit: it needs an RTL-SDR binding that is not in the tree, and whatever that binding, main.go uses curFreq outside its scope. There is no program to encode, and a counterexample could not be replayed.",
 "C31": "Needs the arm/arm64 kernels executed; the toolchain here can assemble them but this engine encodes amd64 only and there is no way to replay a counterexample natively.",
}
def C(note, quick, thorough, **kw):
    d = dict(note=note, quick=quick, thorough=thorough); d.update(kw); return d
CLAIMS = {
 "C01": C("All byte contents; lengths 0..70 (quick), longer in thorough; all 16-byte phases of both buffers.", "see harness/dsp/c01_ui8toi16.go: lengths up to 70 with unequal shapes, 16 alignments; ten longer lengths from 128 to 4099", "longer lengths and all shapes"),
 "C02": C("All byte contents, feature settings, alignments and length shapes up to the bound.", "lengths up to about 70, 16 alignments, 8 feature settings; longer lengths 128 to 1024", "longer lengths, all shapes"),
 "C03": C("All byte contents and all float scales, bit-exact against convert-then-multiply.", "lengths up to about 40, alignments, 8 feature settings; longer lengths 128 to 1024", "longer lengths, all shapes"),
 "C04": C("All float32 samples and scales.", "lengths up to about 40, alignments, asm and portable versions; ten longer lengths from 128 to 4099", "longer lengths"),
 "C05": C("All bit patterns.", "lengths up to about 40; ten longer lengths from 128 to 4099 (round trip to 1024)", "longer lengths"),
 "C06": C("All float contents and scales, bit-exact; in-place use; all feature settings.", "lengths up to about 70 including 0; longer lengths up to 1030", "longer lengths"),
 "C07": C("All non-NaN float contents; order axioms only.", "lengths 0..~70 and shapes in c07_extremum.go, asm and portable versions, 8 feature settings; 128 and 130", "longer lengths"),
 "C08": C("All contents, lengths up to the bound, all alignments; every memory access of every instruction is an obligation.", "lengths 0..~70 unequal, 16 alignments, 8 feature settings; 128, 255, 257, 512, 1025", "longer lengths"),
 "C09": C("All CPUID/XCR0 answers; option strings up to 24 bytes built from the recognised fields and arbitrary bytes; every kernel with each extension's instructions forbidden.", "option strings: see c09_cpu.go", "longer option strings"),
 "C10": C("All vectors of the stated domain, every rounding counted: the plane is cut into sectors, halved until the solver shows in each that the quotients lie where the sector's edges put them and the value cannot be further from the sector's angles than the tolerance. Axes and the origin are separate; the mirror property is bit-exact for all vectors.", "all float32 vectors whose larger part is in [1e-6, 1e18]; no loop", "same"),
 "C11": C("All integer vectors of the stated domain, integer division truncating and the 131072-entry table as it is after package initialisation: sectors as for C10, the index range of a sector giving the range of table values. The mirror property is exact for all vectors; panics (index, division) are obligations of every path.", "all integers up to 2^31 in magnitude; no loop", "same"),
 "C12": C("All sample contents; bit-exact against the polar discriminator; cuts at every pair of points.", "streams of up to 5 samples cut at all pairs of points, one of 12 samples; asm dispatch and portable version, one of 20", "streams of 9 and 24 samples"),
 "C13": C("All sample contents; complex filter over all contents with sums as exact real identities; rational filter for the listed (Fast, Slow) pairs; carried state, counts and cuts bit-exact.", "see harness/dsp/c13_downsample.go", "longer streams and more rate pairs"),
 "C14": C("All contents, bit-exact, asm dispatch and portable versions.", "lengths 0..64 complex samples in multiples of four", "longer buffers"),
 "C15": C("All coefficients and samples (real-arithmetic identity, rounding not bounded); cutting, independence and coefficient ownership bit-exact.", "orders 0..4, streams of up to 6 samples, all cuts", "higher orders, longer streams"),
 "C16": C("All coefficients and samples (real-arithmetic identity, rounding not bounded); cutting, in-place use and independence bit-exact.", "streams of up to 6 samples, all cuts; streams of 130, 257 and 515 samples against one-sample calls; coefficients changed between calls", "longer streams"),
 "C17": C("All sample rates, frequencies below half of them, q (slopes in (0,1]) and gains, over the real numbers: sine and cosine are any point of the unit circle in the half plane the angle dictates, 10^x any positive number with 10^2x its square. Rounding is not bounded. Stability is decided as the two inequalities on A0, A1, A2 that hold exactly when both poles are inside the unit circle.", "all nine designs", "the same"),
 "C18": C("All coefficients and samples (real-arithmetic identity); cutting, mixing, in-place and independence bit-exact.", "streams of up to 6 samples, all cuts and mixtures; streams of 130, 257 and 515 samples against FilterOne", "longer streams"),
 "C19": C("All samples within the scale (double and single rounding counted, relative to block size times scale), every integer frequency strictly nearer to bin k than to any other; cuts, looking, Reset after arbitrary state and independence of the bank bit-exact. The accuracy of math.Sin/Cos is that of the values computed when the filter is built, which the engine computes with the same library.", "blocks of 1..16, 20, 32, 64 samples (magnitude up to 32, complex input 20); 8 scales of bins; cuts of 6 and 20 samples; banks of up to 3", "every bin, blocks of 205 samples; cuts of 12 and 40; banks of up to 6"),
 "C20": C("All complex samples in [-1,1]^2, all windows of weights in [-1,1], rounding counted. After any number of samples by induction: one call from any state with any ring position and any accumulator error up to 1e-3 leaves the error turned by e^(2 pi i b/n) plus at most about 1e-15 n^2 (double).", "n 1..8, all bins, windows of 0..5 and n weights, up to 2n+3 samples; n 16 and 25 without window; steps for n 1..6, 32, 50", "n up to 12; steps for n up to 9"),
 "C23": C("All tone magnitudes that are numbers; the Goertzel stage is replaced by arbitrary magnitudes where the decision is checked, and block cutting runs the real filter.", "blocks and thresholds in c23_dtmf.go", "more block sizes"),
 "C24": C("All frame contents; check sequence against a bitwise CRC; up to three bit errors or a burst of up to 16 bits by syndrome.", "frames of 2..24 bytes and 64, 257, 512; through the line for 3..17 bytes fully and up to 512 with masked contents", "24/40 bytes fully"),
 "C25": C("All frame contents including bit stuffing; leading garbage, repeated flags, aborts, oversize frames, arbitrary bit streams.", "17..27 bytes fully symbolic, up to 512 with masked contents or symbolic windows", "longer windows"),
 "C26": C("All header contents for the stated address counts and callsign lengths; all FlexNet character patterns; later traffic does not alter a returned frame.", "2..4 addresses over the line, up to 5 directly, and 10", "up to 10 addresses"),
 "C27": C("All packet contents; all orders of packet sizes, slice lengths and read errors in the listed shapes.", "packets of 0..42 bytes (and 400), slices of 0..9 and 100 samples, up to 14 calls over 4 packets, with and without headers", "packets of up to 90 bytes"),
 "C28": C("All response lines of up to 5 bytes for every method, every status text of up to 7 characters, beginnings of good responses followed by anything, all field texts of device and tuning responses (strconv as a function of the text).", "see harness/borip/c28_client.go", "lines of up to 9 bytes"),
 "C21": C("Every length up to the bound as one symbolic length (the cosines of multiples of an angle become polynomials of one cosine in [-1,1]), previous contents symbolic; larger lengths one at a time, where only rounding is left to decide. The accuracy of math.Cos (1e-15) is assumed.", "symbolic lengths 1..31; each length 1..70, and 256, 511, 1024", "symbolic lengths 1..63; each length 1..300, and 511, 1024"),
 "C22": C("All positions (each unit interval around the slice, and the classes beyond it, NaN and infinities included) and all sample values; the value as a polynomial for all samples over the reals, and within 1e-13 (double) or 2e-5 (float32) of it with every rounding counted for samples in [-1,1]; exactness at integer positions for samples up to 1e300.", "slices of 0 to 7 samples", "slices of 0 to 12 samples"),
 "C29": C("All argument texts without line breaks and all numbers; all outcomes of histories of Go/Stop/SelectDevice/others before Close.", "texts of up to 16 bytes; histories of 3 (all) and 4 (a third) commands, every status symbolic", "texts of up to 40 bytes, histories of 6"),
 "C32": C("All callsign bytes and SSIDs; every value of each code as one symbolic byte.", "callsigns of up to 9 bytes, SSIDs below 1000; pairs of callsigns of up to 4 characters", "callsigns of up to 20 bytes; pairs of up to 6"),
 "C33": C("Footprints: each of two actors is executed symbolically and the memory it reads and writes, of what existed before it started and of the package's variables, is collected on every path; no path pair may have memory that one writes and the other uses. That rules out a data race under every schedule. Replays run the two in goroutines of a binary built with the race detector.", "every exported operation, buffers of 5 elements; objects are compared whole", "buffers of 9 elements"),
 "C34": C("All complex samples in [-1,1]^2 of a block, rounding counted; the coefficients are those of the package as it is after initialisation.", "every window, both precisions, n 2..10 and most bins, n 16 and 25; the block being filled, the first full one and the next", "n up to 16, every bin"),
}
