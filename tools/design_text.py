HEAD = r"""
# Solver-based checking of samuel/go-dsp

Generated by `tools/gendesign.py`; the words are in `tools/design_text.py`, `tools/claims.py` and `tools/genprops.py`.

## Method

One command decides one property: `./check.sh Cnn` (quick) or `VERIF_TIER=thorough ./check.sh Cnn`. It

1. builds the current working tree of /repo together with the harnesses in `/verif/harness` (through `go build -overlay`: nothing is
   written to /repo), once as SSA (golang.org/x/tools/go/ssa, vendored) and once as a native test binary;
2. runs every *job* (a harness function and its integer parameters: lengths, alignments, CPU settings, cutting points) symbolically;
3. decides every *obligation*: the assertions of the harness and, implicitly, that no path panics, leaves its slices or fails to end;
4. replays each candidate counterexample in the native binary, and prints VIOLATION only if the compiled code fails on it;
5. writes `evidence/Cnn.json`: functions encoded, jobs, obligations by deciding step, queries, solver seconds, what stayed undecided.

### The encoding

* **Go code** is executed from SSA over states of memory objects. Values are hash-consed bit-vector terms; floating-point operations are
  operations on bit patterns. Paths merge at joins where their values can be merged under a condition, and fork otherwise. Maps, slices,
  strings, interfaces, closures, defer, panics and the standard library's own Go code (strings, bufio, strconv's integer half, bytes,
  encoding/binary …) are executed too. Models exist for math's transcendental functions (uninterpreted, or with the facts named below),
  fmt.Sprintf/Fprintf of strings and integers, strconv's float half (a function of the text), and errors.
* **Assembly kernels** are executed from the machine code of the binary that was just linked, instruction by instruction (objdump): SSE2,
  SSE4.1, AVX and AVX2 with flags, stack and the Go ABI0 frame. Symbol addresses, constants and stack layout are those of the running code.
* **Memory** is a set of objects with bounds and alignment. Every access of Go and of assembly is checked against them; under
  `nd.Freeze` a write is a violation as well. C33 collects the accesses of each actor as footprints.
* Inputs are `nd.F32s`, `nd.Bytes`, … of the harness: unconstrained bit patterns unless `nd.Assume` narrows them.

### Deciding an obligation

In this order, each step only if the one before left it open:

1. rewriting: both sides become the same term (most sample-by-sample equalities);
2. z3 over bit-vectors with floating-point operations uninterpreted: unsat is a bit-exact verdict for any arithmetic;
3. order axioms (C07), GF(2) linear algebra (C24: xor-linear terms are solved by elimination, and z3 sees only the rest);
4. z3 or cvc5 with the IEEE-754 theory;
5. for real-valued formulas: polynomial identities over the reals (normal forms, then z3's nlsat), with each rounding as a bounded
   relative error where the property bounds the error (`nd.Bound`), intervals for floating-point ranges, and for the arctangents the
   division of the plane into sectors, each refined until the solver settles it.

A sat answer of a step that abstracts anything is a candidate, not a verdict. Its model, and concrete values near it, are run natively.
An obligation with neither proof nor reproduced counterexample is *undecided*: listed in the evidence, no alarm. On the current tree no
obligation of any check is undecided in the quick tier.

**Concordance.** Each job is also run natively on a random input and on the encoding evaluated at the same input; every asserted value is compared. A difference is reported
in the evidence and withdraws the verdicts of the job (they become undecided) – this is what guards the engine's semantics against itself.

**Harnesses and refactoring.** A harness speaks of exported functions. Where it also compares with an unexported one (the portable twin
of a kernel, say) that part is in a `*_ref.go` file, which is left out if it does not compile any more; the rest still decides the property.
Whether the checks stay quiet was tried on two sets of behaviour-preserving rewrites of almost every file (helpers extracted, loops reversed or
split, library functions for open code, fields reset through a composite literal, switch for if, map for switch, copy for loop): no alarm; a few
obligations became undecided.

### What is trusted

go/ssa and objdump, the instruction semantics of the engine (checked by concordance in each run), z3 4.8.12 and cvc5 1.1.2, the accuracy
of math.Sin/Cos/Exp (1e-15) where a harness names it, and the Go compiler only as far as the native replays go.
"""

HOW = {
"C01": ("Symbolic execution of the machine code of both kernels; each output byte is compared with the formula, each other byte with what it was. Almost everything is decided by rewriting, the rest by bit-vector queries.",
        "Longer buffers than the bound; the kernels have no loop state other than the position, and the bound covers several rounds of the widest loop with all tails.", "4 s"),
"C02": ("As C01, with int-to-float conversion kept symbolic: the kernel's conversions must be those of the formula, per lane, on every combination of useSSE2/useSSE4/useAVX2.",
        "Longer buffers.", "5 s"),
"C03": ("As C02: the decoded integer, its conversion and the multiplication are the same IEEE operations on both sides.",
        "Longer buffers.", "4 s"),
"C04": ("The truncation and clipping of kernel and formula are compared under the IEEE theory (one query per distinct lane expression, shared by all positions), the position independence by equality of terms between shapes.",
        "What a NaN becomes.", "15 s"),
"C05": ("Encoding and decoding composed symbolically; 16-bit round trips use the IEEE theory.", "Longer buffers.", "5 s"),
"C06": ("Each output element is compared bit for bit with the formula in the same IEEE operations. For VMulC64 two complex products are accepted: Go's own (rounded once from double) and the one in single precision throughout.",
        "Which NaN is produced. Elements shared by overlapping but different slices.", "5 s"),
"C07": ("Maximum and minimum instructions are modelled by their defining comparisons; the result is compared using order axioms, so that the queries stay propositional.",
        "Slices with a NaN.", "16 s"),
"C08": ("Every load and store of every instruction is an obligation against the slice it belongs to; guard pages are not needed because nothing else is mapped. Stack and frame pointers are compared at return through an assembly trampoline.",
        "Longer buffers; the arm, arm64 and 386 files.", "10 s"),
"C09": ("cpu.Initialize is run with CPUID and XGETBV answers as free variables; the option parser on symbolic strings; then every kernel with the instructions of each extension turned into a fault unless the flag it consulted implies the extension.",
        "Other architectures.", "4 s"),
"C10": ("Angle sectors: for each sector the solver shows the range of the quotient from the range of the vector, and an interval computation with every rounding bounds the distance to the sector's angles. Sectors are halved until the tolerance holds.",
        "Vectors outside [1e-6, 1e18] in their larger part, where the approximation may underflow or overflow.", "85 s"),
"C11": ("The same over integers, including the arithmetic shift, the truncating division and the look-up table as built by init. Panics (division by zero, index) on every path.",
        "Magnitudes above 2^31.", "10 s"),
"C12": ("The output is compared bit for bit with the discriminator applied to neighbouring samples, for uncut and cut streams; Phase32 and PolarDiscriminator against the angle of the product.",
        "Longer streams; the state is one sample, which the harness starts from an arbitrary history.", "5 s"),
"C13": ("Sums of groups over the reals; which samples enter which group, counts and carried state bit-exact; cut and uncut runs are compared bit for bit.",
        "Rounding of the sums. Rate pairs not listed.", "3 s"),
"C14": ("Bit-exact against multiplication by powers of i; the asm dispatch and the portable twin.", "Buffers that are not a multiple of four (the functions panic on them, as documented by their loop).", "1 s"),
"C15": ("The recurrence as a polynomial identity in coefficients and samples over the reals; cutting and independence bit-exact; the caller's coefficient slices are frozen.",
        "Accumulated rounding.", "5 s"),
"C16": ("As C15 for the biquad's direct form.", "Accumulated rounding.", "2 s"),
"C17": ("sin, cos and 10^x are variables with their defining relations (s²+c²=1, signs by quadrant); gains at DC, centre, cutoff and Nyquist and the stability inequalities become polynomial queries, and each design is shown to be the bilinear transform of its documented H(s).",
        "Rounding; frequencies at or above Nyquist.", "2 s"),
"C18": ("As C15; Filter and FilterOne mixed in every way.", "Accumulated rounding.", "2 s"),
"C19": ("The Goertzel recurrence is unrolled; its result differs from the DFT bin by an error bounded from the rounding of each operation. Bin selection is decided over symbolic integer frequencies.",
        "Longer blocks.", "25 s"),
"C20": ("The ring of accumulators over symbolic samples against the DFT of the last n samples, with rounding counted, and an inductive step from an arbitrary state.",
        "Lengths n not listed.", "115 s"),
"C21": ("Window lengths as one symbolic number: the cosines of multiples of an angle are polynomials of one cosine. Symmetry, bounds and peak are polynomial queries; the F32 variant must be the rounded double bit for bit.",
        "Lengths above the bound other than those listed.", "35 s"),
"C22": ("Positions are divided into unit intervals and the classes outside; within one the interpolator is a polynomial in the fraction and the samples, compared over the reals and with rounding.",
        "Longer slices; only neighbours of the position are read, and the bound covers every way in which they can be missing.", "130 s"),
"C23": ("The decision logic on arbitrary tone magnitudes, and the whole detector on symbolic blocks.", "Detection quality on noisy signals is not a property of all inputs and is not claimed.", "6 s"),
"C24": ("The table-driven check sequence is xor-linear; it is compared with a bitwise CRC by elimination, and the rejection of corrupted frames is decided on syndromes.",
        "More than three errors outside a burst.", "25 s"),
"C25": ("The decoder is fed symbolic bits; a frame is stuffed by the harness, branch by branch, so that the position of every stuffed bit is symbolic.",
        "Fully symbolic contents above the bound: larger frames have a symbolic window.", "130 s"),
"C26": ("Frames with symbolic headers go through the decoder; fields are compared with the layout of the protocol.", "More addresses.", "20 s"),
"C27": ("A packet connection that returns symbolic packets, sizes and errors; the sample sequence is compared with the concatenated packet contents.", "Longer histories.", "2 s"),
"C28": ("Response lines as symbolic bytes through the real bufio and strings code; no method may panic, and results must be the fields of the line.", "Longer lines than the bound, except those that begin as good responses.", "80 s"),
"C29": ("Command texts captured from the real bufio.Writer and compared; histories of commands with symbolic outcomes followed by Close.", "Longer histories.", "45 s"),
"C32": ("Text forms compared byte by byte; fmt.Sprintf of %s, %d, %x and %v with widths is modelled and checked by concordance.", "Callsigns longer than the bound.", "2 s"),
"C34": ("The sliding DFT is unrolled over symbolic samples and compared, rounding counted, with the transform of the samples under the first n values of the time-domain window of n+1 samples, computed by the package itself.",
        "Sizes not listed; after the next block C20's inductive step takes over.", "60 s"),
"C33": ("Footprints (see the bounds). Channels and locks are not used by the package; an actor that used a lock would be reported as undecided or clean only by its accesses.",
        "One object shared by two goroutines: the package does not promise that. Races inside the standard library.", "15 s"),
}

TAIL = r"""
## What the machinery cannot do

* arm and arm64 kernels (C31) and boripserver (C30, does not compile) are not covered; the example programs are not either.
* Interleavings inside one object are not explored: nothing in the package synchronises, and C33 shows that separate objects share nothing.
* Rounding over unbounded streams is not bounded, except for the sliding DFT (C20), where an inductive step does it.
* A change that makes code leave the encodable subset (goroutines, unsafe arithmetic, reflection, floating-point formatting in the checked
  output) gives undecided obligations, not an alarm: it can hide a defect that comes with it.
"""
