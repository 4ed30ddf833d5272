// Package verifnd is the interface between verification harnesses and the
// two engines that run them: the symbolic executor (which intercepts every
// function here) and the native replayer (this file).
package verifnd

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// Entry is one registered harness.
type Entry struct {
	Prop, Name string
	F          func()
	Params     [][]int
	Func       string
}

var Entries []*Entry

// Reg registers a harness; gen lists the parameter vectors (one job each)
// for a tier (0 quick, 1 thorough).
func Reg(prop, name string, f func(), gen func(tier int) [][]int) {
	e := &Entry{Prop: prop, Name: name, F: f}
	if gen == nil {
		e.Params = [][]int{{}}
	} else {
		e.Params = gen(Tier)
	}
	Entries = append(Entries, e)
}

var Tier = func() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 1
	}
	return 0
}()

var (
	params   []int
	model    map[string]uint64
	uid      map[string]int
	Failures []string
	Traces   []string
	Tracing  bool
	Vacuous  bool
	regions  []*region
)

type assumeFailed struct{}

type region struct {
	mem   []byte
	lo    int
	hi    int
	name  string
	ro    bool
	saved []byte
}

const canary = 0xC5

// Run executes one harness natively on a model.
func Run(f func(), ps []int, m map[string]uint64) {
	params, model, uid = ps, m, map[string]int{}
	Failures, Traces, Vacuous, regions = nil, nil, false, nil
	debug.SetPanicOnFault(true)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					Vacuous = true
					return
				}
				Failures = append(Failures, fmt.Sprintf("panic: %v", r))
			}
		}()
		f()
	}()
	CheckCanaries()
}

func CheckCanaries() {
	for _, r := range regions {
		for i, b := range r.mem {
			if (i < r.lo || i >= r.hi) && b != canary {
				Failures = append(Failures, fmt.Sprintf("write outside %s: byte offset %d of %d", r.name, i-r.lo, r.hi-r.lo))
				break
			}
		}
		if r.ro {
			for i := range r.saved {
				if r.mem[r.lo+i] != r.saved[i] {
					Failures = append(Failures, fmt.Sprintf("input %s modified at byte %d", r.name, i))
					break
				}
			}
		}
	}
}

func get(name string) uint64 {
	k := uid[name]
	uid[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return model[name]
}

// P returns parameter i of the job (concrete in both engines).
func P(i int) int { return params[i] }

func Bool(name string) bool    { return get(name) != 0 }
func U8(name string) uint8     { return uint8(get(name)) }
func U16(name string) uint16   { return uint16(get(name)) }
func U32(name string) uint32   { return uint32(get(name)) }
func U64(name string) uint64   { return get(name) }
func I8(name string) int8      { return int8(get(name)) }
func I16(name string) int16    { return int16(get(name)) }
func I32(name string) int32    { return int32(get(name)) }
func I64(name string) int64    { return int64(get(name)) }
func F32(name string) float32  { return math.Float32frombits(uint32(get(name))) }
func F64(name string) float64  { return math.Float64frombits(get(name)) }
func C64(name string) complex64 {
	r := F32(name + ".re")
	return complex(r, F32(name+".im"))
}
func C128(name string) complex128 {
	r := F64(name + ".re")
	return complex(r, F64(name+".im"))
}

var dummy [64]byte

// place returns memory for n bytes whose address is align modulo 32 and
// that lies as close as possible to an inaccessible page behind it.
func place(name string, n, align int) unsafe.Pointer {
	k := uid[name]
	uid[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	const pg = 4096
	body := (n+64+pg-1)/pg*pg + pg
	m, err := syscall.Mmap(-1, 0, body+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:pg], syscall.PROT_NONE)
	syscall.Mprotect(m[body+pg:], syscall.PROT_NONE)
	area := m[pg : pg+body]
	start := body - n
	for (uintptr(unsafe.Pointer(&area[0]))+uintptr(start))%32 != uintptr(align)%32 {
		start--
	}
	for i := range area {
		area[i] = canary
	}
	r := &region{mem: area, lo: start, hi: start + n, name: name}
	regions = append(regions, r)
	for i := 0; i < n; i++ {
		area[start+i] = 0
	}
	curName = name
	if start == body {
		return unsafe.Pointer(uintptr(unsafe.Pointer(&area[0])) + uintptr(start))
	}
	return unsafe.Pointer(&area[start])
}

var curName string

// spare is the capacity of a buffer beyond its length: it looks cut from
// something longer, which is not for the code to touch (and is guarded here).
const spare = 16

func elem(i int) uint64 { return model[fmt.Sprintf("%s[%d]", curName, i)] }

func Bytes(name string, n, align int) []byte {
	p := unsafe.Slice((*byte)(place(name, n, align)), n+spare)[:n]
	for i := range p {
		p[i] = byte(elem(i))
	}
	return p
}
func I8s(name string, n, align int) []int8 {
	p := unsafe.Slice((*int8)(place(name, n, align)), n+spare)[:n]
	for i := range p {
		p[i] = int8(elem(i))
	}
	return p
}
func I16s(name string, n, align int) []int16 {
	p := unsafe.Slice((*int16)(place(name, n*2, align)), n+spare)[:n]
	for i := range p {
		p[i] = int16(elem(i))
	}
	return p
}
func I32s(name string, n, align int) []int32 {
	p := unsafe.Slice((*int32)(place(name, n*4, align)), n+spare)[:n]
	for i := range p {
		p[i] = int32(elem(i))
	}
	return p
}
func F32s(name string, n, align int) []float32 {
	p := unsafe.Slice((*float32)(place(name, n*4, align)), n+spare)[:n]
	for i := range p {
		p[i] = math.Float32frombits(uint32(elem(i)))
	}
	return p
}
func F64s(name string, n, align int) []float64 {
	p := unsafe.Slice((*float64)(place(name, n*8, align)), n+spare)[:n]
	for i := range p {
		p[i] = math.Float64frombits(elem(i))
	}
	return p
}
func C64s(name string, n, align int) []complex64 {
	p := unsafe.Slice((*complex64)(place(name, n*8, align)), n+spare)[:n]
	for i := range p {
		p[i] = complex(math.Float32frombits(uint32(elem(2*i))), math.Float32frombits(uint32(elem(2*i+1))))
	}
	return p
}
func C128s(name string, n, align int) []complex128 {
	p := unsafe.Slice((*complex128)(place(name, n*16, align)), n+spare)[:n]
	for i := range p {
		p[i] = complex(math.Float64frombits(elem(2*i)), math.Float64frombits(elem(2*i+1)))
	}
	return p
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

func fail(msg string, i int, f string, a ...interface{}) {
	Failures = append(Failures, fmt.Sprintf("%s [%d]: ", msg, i)+fmt.Sprintf(f, a...))
}
func trace(msg string, i int, v uint64) {
	if Tracing {
		Traces = append(Traces, fmt.Sprintf("%s [%d] %x", strings.ReplaceAll(msg, " ", "_"), i, v))
	}
}

func Assert(b bool, msg string) {
	v := uint64(0)
	if b {
		v = 1
	}
	trace(msg, 0, v)
	if !b {
		Failures = append(Failures, msg)
	}
}

// AssertI is Assert with an index in the message.
func AssertI(b bool, msg string, i int) {
	v := uint64(0)
	if b {
		v = 1
	}
	trace(msg, i, v)
	if !b {
		fail(msg, i, "false")
	}
}

// EqI demands equal integers.
func EqI(got, want int64, msg string, i int) {
	trace(msg, i, uint64(got))
	if got != want {
		fail(msg, i, "got %d want %d", got, want)
	}
}

func nan32(a float32) uint64 {
	if a != a {
		return 0x7fc00000
	}
	return uint64(math.Float32bits(a))
}
func nan64(a float64) uint64 {
	if a != a {
		return 0x7ff8000000000000
	}
	return math.Float64bits(a)
}

// Eq32 demands identical floats (bits equal, or both NaN).
func Eq32(got, want float32, msg string, i int) {
	trace(msg, i, nan32(got))
	if nan32(got) != nan32(want) {
		fail(msg, i, "got %v (%#x) want %v (%#x)", got, math.Float32bits(got), want, math.Float32bits(want))
	}
}
func Eq64(got, want float64, msg string, i int) {
	trace(msg, i, nan64(got))
	if nan64(got) != nan64(want) {
		fail(msg, i, "got %v (%#x) want %v (%#x)", got, math.Float64bits(got), want, math.Float64bits(want))
	}
}
func EqC64(got, want complex64, msg string, i int) {
	Eq32(real(got), real(want), msg+" re", i)
	Eq32(imag(got), imag(want), msg+" im", i)
}

// EqC64Or demands that each part of got is that of want or that of alt.
func EqC64Or(got, want, alt complex64, msg string, i int) {
	part := func(g, w, a float32, msg string) {
		if nan32(g) == nan32(a) {
			w = a
		}
		Eq32(g, w, msg, i)
	}
	part(real(got), real(want), real(alt), msg+" re")
	part(imag(got), imag(want), imag(alt), msg+" im")
}
func EqC128(got, want complex128, msg string, i int) {
	Eq64(real(got), real(want), msg+" re", i)
	Eq64(imag(got), imag(want), msg+" im", i)
}

// Formula demands that got computes the real-valued formula want; rounding
// differences up to tol*(1+scale) are accepted.  Symbolically: identical
// operations, or equal over the reals.
func Formula(got, want, scale, tol float64, msg string, i int) {
	if math.IsNaN(got) && math.IsNaN(want) || got == want {
		return
	}
	if math.IsInf(want, 0) || math.IsNaN(want) || math.IsInf(scale, 0) || math.IsNaN(scale) || math.Abs(want) > 1e30 || scale > 1e30 {
		return // overflow: the formula has no real value to compare with
	}
	d := math.Abs(got - want)
	if !(d <= tol*(math.Abs(scale)+1e-30)) {
		fail(msg, i, "got %v want %v (difference %g, allowed %g)", got, want, d, tol*math.Abs(scale))
	}
}

// Close demands that got and want differ by at most tol, where rounding is
// what matters: symbolically they must be bit-equal, and real arithmetic does
// not count as a proof.
func Close(got, want, tol float64, msg string, i int) {
	if math.IsNaN(got) && math.IsNaN(want) || got == want {
		return
	}
	if math.IsInf(want, 0) || math.IsNaN(want) || math.IsInf(tol, 0) || math.IsNaN(tol) || math.Abs(want) > 1e30 || tol > 1e30 {
		return
	}
	if d := math.Abs(got - want); !(d <= tol) {
		fail(msg, i, "got %v want %v (difference %g, allowed %g)", got, want, d, tol)
	}
}

// Bound demands got-want within tol, decided in real arithmetic.
func Bound(got, want, tol float64, msg string, i int) {
	d := math.Abs(got - want)
	if !(d <= tol) {
		fail(msg, i, "got %v want %v (difference %g, allowed %g)", got, want, d, tol)
	}
}

// Angle: got is within tol of the angle of the vector (x, y), which is pi
// when y is zero of either sign and x negative.
func Angle(got, y, x, tol float64, msg string, i int) {
	Bound(got, math.Atan2(y+0, x), tol, msg, i)
}

// AngleIn: got, a function of the vector (x, y), lies in [lo, hi].
func AngleIn(got, y, x, lo, hi float64, msg string, i int) {
	if !(lo <= got && got <= hi) {
		fail(msg, i, "got %v outside %v..%v", got, lo, hi)
	}
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return
}

// Par runs f and g in two goroutines; in the symbolic executor it is an
// obligation that neither uses memory that the other writes.
func Par(f, g func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, h := range []func(){f, g} {
		h := h
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					Failures = append(Failures, fmt.Sprintf("panic: %v", r))
					mu.Unlock()
				}
			}()
			debug.SetPanicOnFault(true)
			h()
		}()
	}
	wg.Wait()
}

// Freeze marks a buffer as one whose contents must not change.
func Freeze() {
	if len(regions) == 0 {
		return
	}
	r := regions[len(regions)-1]
	r.ro = true
	r.saved = append([]byte(nil), r.mem[r.lo:r.hi]...)
}

// Symbolic reports whether the harness runs in the symbolic executor.
func Symbolic() bool { return false }

// Fork asks the symbolic executor to split on b instead of merging.
func Fork(b bool) bool { return b }

// Conc forces v to be concrete in the symbolic executor (case split).
func Conc(v int) int { return v }

// KeepState calls f and reports whether the caller's frame pointer or stack
// pointer was changed by it (native: not observable, false).
func KeepState(f func()) bool { f(); return false }

// Branch-free connectives: the symbolic executor builds one formula instead
// of following two paths.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Imp(a, b bool) bool { return !a || b }
func IteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func Ite32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}
func Ite64(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Feature declares whether the processor has an instruction-set extension.
// The symbolic engine turns every instruction of it into an obligation;
// natively, if it is absent, every such instruction of the package's assembly
// is replaced by an undefined one.
func Feature(ext string, present bool) {
	if present {
		return
	}
	b, err := os.ReadFile(os.Getenv("VERIF_EXT"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var e string
		var a uint64
		if n, _ := fmt.Sscanf(l, "%s %x", &e, &a); n != 2 || e != ext {
			continue
		}
		pg := uintptr(a) &^ 4095
		m := unsafe.Slice((*byte)(unsafe.Pointer(pg)), 8192)
		if syscall.Mprotect(m, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC) != nil {
			continue
		}
		m[uintptr(a)-pg], m[uintptr(a)-pg+1] = 0x0f, 0x0b
	}
}
