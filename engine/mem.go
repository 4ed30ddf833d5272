package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Complex struct{ Re, Im *Term }

// Ptr is an object plus a byte offset base + idx*stride (idx nil: concrete).
type Ptr struct {
	Obj    int
	Base   int64
	Idx    *Term
	Stride int64
	Cnt    int64
}

func (p Ptr) IsNil() bool { return p.Obj == 0 }

type Slice struct {
	P        Ptr
	Len, Cap *Term
}
type Str struct {
	P   Ptr
	Len *Term
}
type Iface struct {
	T types.Type
	V Value
}
type Fn struct {
	F    *ssa.Function
	Bind []Value
	B    *ssa.Builtin
	Name string // model function
}
type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type Tuple []Value
type MapV struct{ ID int }
type Opaque struct{ Name string }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

const pageSize = 64

type cell struct {
	v    Value
	sz   uint8
	back uint8 // distance to the start of the cell for continuation bytes
}
type page struct {
	gen int
	c   [pageSize]cell
}
type Object struct {
	id    int
	gen   int
	size  int64
	align int64
	name  string
	ro    bool
	ext   bool // memory handed to the code under test by the harness
	pages []*page
}

func (o *Object) addr() uint64 { return uint64(o.id)*0x1000000 + 0x100000000 + uint64(o.align) }

func (o *Object) at(off int64) *cell {
	p := o.pages[off/pageSize]
	if p == nil {
		return nil
	}
	return &p.c[off%pageSize]
}

type MapObj struct {
	keys []Value
	vals []Value
	typ  *types.Map
}

// PC is a persistent list of conjuncts.
type PC struct {
	up    *PC
	t     *Term
	depth int
	// which models of the pool satisfy the whole list
	mask   uint64
	masked bool
}

func (p *PC) list() []*Term {
	var r []*Term
	for q := p; q != nil && q.t != nil; q = q.up {
		r = append(r, q.t)
	}
	return r
}

type State struct {
	gen    int
	objs   map[int]*Object
	maps   map[int]*MapObj
	pc     *PC
	conc   map[int32]uint64
	trace  *traceList
	loops  int
	extra  map[string]Value // model state (counters of stub environment calls)
	defers int
	names  map[string]int // uses of each harness name on this path, never changed in place
	acc    *access        // memory used since nd.Par began an actor
}

// access is the shared memory an actor of nd.Par has read and written: the
// objects that existed before it started, and package variables.
type access struct {
	limit int
	r, w  map[int]bool
}

func (a *access) clone() *access {
	if a == nil {
		return nil
	}
	n := &access{a.limit, make(map[int]bool, len(a.r)), make(map[int]bool, len(a.w))}
	for k := range a.r {
		n.r[k] = true
	}
	for k := range a.w {
		n.w[k] = true
	}
	return n
}

func (a *access) union(b *access) *access {
	if a == nil || b == nil || a == b {
		return a
	}
	n := a.clone()
	for k := range b.r {
		n.r[k] = true
	}
	for k := range b.w {
		n.w[k] = true
	}
	return n
}

func (ex *Exec) note(st *State, id int, write bool) {
	a := st.acc
	if id > a.limit {
		if _, ok := ex.base.objs[id]; !ok {
			if _, ok := ex.base.maps[id]; !ok {
				return
			}
		}
	}
	if write {
		a.w[id] = true
	} else {
		a.r[id] = true
	}
}

type traceList struct {
	up *traceList
	s  string
}

type Mem struct {
	next int
	gen  int
}

func (ex *Exec) newGen() int { ex.genCtr++; return ex.genCtr }

func (ex *Exec) clone(st *State) *State {
	n := &State{gen: ex.newGen(), pc: st.pc, trace: st.trace, names: st.names, acc: st.acc.clone()}
	st.gen = ex.newGen()
	n.objs = make(map[int]*Object, len(st.objs)+4)
	for k, v := range st.objs {
		n.objs[k] = v
	}
	if len(st.maps) > 0 {
		n.maps = make(map[int]*MapObj, len(st.maps))
		for k, v := range st.maps {
			n.maps[k] = v
		}
	}
	if len(st.conc) > 0 {
		n.conc = make(map[int32]uint64, len(st.conc))
		for k, v := range st.conc {
			n.conc[k] = v
		}
	}
	if len(st.extra) > 0 {
		n.extra = make(map[string]Value, len(st.extra))
		for k, v := range st.extra {
			n.extra[k] = v
		}
	}
	return n
}

func (ex *Exec) addPC(st *State, t *Term) {
	if t.IsTrue() {
		return
	}
	if t.op == OpAnd {
		ex.addPC(st, t.args[0])
		ex.addPC(st, t.args[1])
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{up: st.pc, t: t, depth: d}
}

func (ex *Exec) alloc(st *State, size int64, name string) *Object {
	ex.objCtr++
	o := &Object{id: ex.objCtr, gen: st.gen, size: size, name: name}
	o.pages = make([]*page, (size+pageSize-1)/pageSize)
	st.objs[o.id] = o
	return o
}

func (ex *Exec) obj(st *State, id int) *Object {
	if st.acc != nil {
		ex.note(st, id, false)
	}
	if o, ok := st.objs[id]; ok {
		return o
	}
	if o, ok := ex.base.objs[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (ex *Exec) wobj(st *State, id int) *Object {
	if st.acc != nil {
		ex.note(st, id, true)
	}
	o, ok := st.objs[id]
	if !ok {
		o, ok = ex.base.objs[id]
		if !ok {
			panic("no object")
		}
	}
	if o.gen == st.gen {
		if _, own := st.objs[id]; own {
			return o
		}
	}
	n := *o
	n.gen = st.gen
	n.pages = append([]*page(nil), o.pages...)
	st.objs[id] = &n
	return &n
}

func (ex *Exec) wcell(st *State, o *Object, off int64) *cell {
	pi := off / pageSize
	p := o.pages[pi]
	if p == nil {
		p = &page{gen: st.gen}
		o.pages[pi] = p
	} else if p.gen != st.gen {
		n := *p
		n.gen = st.gen
		p = &n
		o.pages[pi] = p
	}
	return &p.c[off%pageSize]
}

// byteAt returns the 8-bit term at a byte offset.
func (ex *Exec) byteAt(o *Object, off int64) *Term {
	c := o.at(off)
	if c == nil || (c.sz == 0 && c.back == 0) {
		return ex.c.Const(8, 0)
	}
	start := off - int64(c.back)
	sc := o.at(start)
	t, ok := sc.v.(*Term)
	if !ok {
		unsup("byte of a pointer value in %s", o.name)
	}
	return ex.c.Extract(t, uint8((off-start)*8), 8)
}

// load reads a raw cell of size sz. isPtr says the reader expects a
// non-scalar 8 (or 16) byte value.
func (ex *Exec) loadRaw(o *Object, off, sz int64, zero Value) Value {
	c := o.at(off)
	if c != nil && c.sz == uint8(sz) {
		return c.v
	}
	empty := true
	for i := int64(0); i < sz; i++ {
		c := o.at(off + i)
		if c != nil && (c.sz != 0 || c.back != 0) {
			empty = false
			break
		}
	}
	if empty {
		return zero
	}
	if _, isT := zero.(*Term); !isT {
		// a zeroed pointer written by machine code
		var t *Term
		if sz <= 8 {
			t = ex.loadBits(o, off, sz)
			if t.IsConst() && t.v == 0 {
				return zero
			}
		}
		unsup("reading a pointer from scalar bytes in %s+%d", o.name, off)
	}
	return ex.loadBits(o, off, sz)
}

func (ex *Exec) loadBits(o *Object, off, sz int64) *Term {
	c := o.at(off)
	if c != nil && int64(c.sz) == sz {
		if t, ok := c.v.(*Term); ok {
			return t
		}
		unsup("pointer read as integer in %s", o.name)
	}
	// inside a larger cell
	if c != nil && (c.sz != 0 || c.back != 0) {
		start := off - int64(c.back)
		sc := o.at(start)
		if start+int64(sc.sz) >= off+sz {
			if t, ok := sc.v.(*Term); ok {
				return ex.c.Extract(t, uint8((off-start)*8), uint8(sz*8))
			}
		}
	}
	if sz == 1 {
		return ex.byteAt(o, off)
	}
	// split recursively so that aligned halves are found whole
	h := sz / 2
	if sz&(sz-1) != 0 {
		h = 1
		for h*2 < sz {
			h *= 2
		}
	}
	lo := ex.loadBits(o, off, h)
	hi := ex.loadBits(o, off+h, sz-h)
	return ex.c.Concat(hi, lo)
}

func (ex *Exec) splitCell(st *State, o *Object, start int64) {
	sc := *o.at(start)
	t, ok := sc.v.(*Term)
	if !ok {
		// overwriting part of a pointer value: drop it
		for i := int64(0); i < int64(sc.sz); i++ {
			*ex.wcell(st, o, start+i) = cell{v: ex.c.Const(8, 0), sz: 1}
		}
		return
	}
	for i := int64(0); i < int64(sc.sz); i++ {
		*ex.wcell(st, o, start+i) = cell{v: ex.c.Extract(t, uint8(i*8), 8), sz: 1}
	}
}

func (ex *Exec) storeRaw(st *State, o *Object, off, sz int64, v Value) {
	c := o.at(off)
	if c == nil || c.sz != uint8(sz) {
		for i := int64(0); i < sz; i++ {
			c := o.at(off + i)
			if c == nil || (c.sz == 0 && c.back == 0) {
				continue
			}
			start := off + i - int64(c.back)
			end := start + int64(o.at(start).sz)
			if start < off || end > off+sz {
				ex.splitCell(st, o, start)
			}
		}
		for i := int64(1); i < sz; i++ {
			*ex.wcell(st, o, off+i) = cell{back: uint8(i)}
		}
	}
	*ex.wcell(st, o, off) = cell{v: v, sz: uint8(sz)}
}

// ---- typed access ----

var sizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

func structOffsets(s *types.Struct) []int64 {
	f := make([]*types.Var, s.NumFields())
	for i := range f {
		f[i] = s.Field(i)
	}
	return sizes.Offsetsof(f)
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicWidth(b *types.Basic) (w uint8, flt bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8, types.Uint8:
		return 8, false
	case types.Int16, types.Uint16:
		return 16, false
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, false
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func (ex *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{Len: ex.c.Int(0)}
		case types.Complex64:
			return Complex{ex.c.Const(32, 0), ex.c.Const(32, 0)}
		case types.Complex128, types.UntypedComplex:
			return Complex{ex.c.Const(64, 0), ex.c.Const(64, 0)}
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		}
		w, _ := basicWidth(u)
		return ex.c.Const(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{Len: ex.c.Int(0), Cap: ex.c.Int(0)}
	case *types.Struct:
		s := StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := ArrayV{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = ex.zero(u.Elem())
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Fn{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Opaque{"nilchan"}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = ex.zero(u.At(i).Type())
		}
		return r
	}
	unsup("zero of %v", t)
	return nil
}

func (ex *Exec) loadObj(o *Object, off int64, t types.Type) Value {
	c := ex.c
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return Str{P: ex.loadRaw(o, off, 8, Ptr{}).(Ptr), Len: ex.loadBits(o, off+8, 8)}
		case types.Complex64:
			return Complex{ex.loadBits(o, off, 4), ex.loadBits(o, off+4, 4)}
		case types.Complex128:
			return Complex{ex.loadBits(o, off, 8), ex.loadBits(o, off+8, 8)}
		case types.UnsafePointer:
			return ex.loadRaw(o, off, 8, Ptr{})
		case types.Bool:
			b := ex.loadBits(o, off, 1)
			return c.Not(c.Eq(b, c.Const(8, 0)))
		}
		return ex.loadBits(o, off, sizeof(t))
	case *types.Pointer:
		return ex.loadRaw(o, off, 8, Ptr{})
	case *types.Signature:
		return ex.loadRaw(o, off, 8, Fn{})
	case *types.Map:
		return ex.loadRaw(o, off, 8, MapV{})
	case *types.Chan:
		return ex.loadRaw(o, off, 8, Opaque{"nilchan"})
	case *types.Interface:
		return ex.loadRaw(o, off, 16, Iface{})
	case *types.Slice:
		return Slice{P: ex.loadRaw(o, off, 8, Ptr{}).(Ptr), Len: ex.loadBits(o, off+8, 8), Cap: ex.loadBits(o, off+16, 8)}
	case *types.Struct:
		s := StructV{F: make([]Value, u.NumFields())}
		offs := structOffsets(u)
		for i := range s.F {
			s.F[i] = ex.loadObj(o, off+offs[i], u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := ArrayV{E: make([]Value, u.Len())}
		es := sizeof(u.Elem())
		for i := range a.E {
			a.E[i] = ex.loadObj(o, off+int64(i)*es, u.Elem())
		}
		return a
	}
	unsup("load of %v", t)
	return nil
}

func (ex *Exec) storeObj(st *State, o *Object, off int64, t types.Type, v Value) {
	c := ex.c
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			s := v.(Str)
			ex.storeRaw(st, o, off, 8, s.P)
			ex.storeRaw(st, o, off+8, 8, s.Len)
			return
		case types.Complex64:
			z := v.(Complex)
			ex.storeRaw(st, o, off, 4, z.Re)
			ex.storeRaw(st, o, off+4, 4, z.Im)
			return
		case types.Complex128:
			z := v.(Complex)
			ex.storeRaw(st, o, off, 8, z.Re)
			ex.storeRaw(st, o, off+8, 8, z.Im)
			return
		case types.Bool:
			ex.storeRaw(st, o, off, 1, c.BoolBV(v.(*Term), 8))
			return
		}
		ex.storeRaw(st, o, off, sizeof(t), v)
		return
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		ex.storeRaw(st, o, off, 8, v)
		return
	case *types.Interface:
		ex.storeRaw(st, o, off, 16, v)
		return
	case *types.Slice:
		s := v.(Slice)
		ex.storeRaw(st, o, off, 8, s.P)
		ex.storeRaw(st, o, off+8, 8, s.Len)
		ex.storeRaw(st, o, off+16, 8, s.Cap)
		return
	case *types.Struct:
		s := v.(StructV)
		offs := structOffsets(u)
		for i := range s.F {
			ex.storeObj(st, o, off+offs[i], u.Field(i).Type(), s.F[i])
		}
		return
	case *types.Array:
		a := v.(ArrayV)
		es := sizeof(u.Elem())
		for i := range a.E {
			ex.storeObj(st, o, off+int64(i)*es, u.Elem(), a.E[i])
		}
		return
	}
	unsup("store of %v", t)
}

const maxSymRead = 4096
const maxSymWrite = 4096

// ptrCheck verifies a concrete access range; msg non-empty on fault.
func (ex *Exec) load(st *State, p Ptr, t types.Type) (Value, string) {
	if p.IsNil() {
		return nil, "nil pointer dereference"
	}
	o := ex.obj(st, p.Obj)
	sz := sizeof(t)
	if p.Idx == nil {
		if p.Base < 0 || p.Base+sz > o.size {
			return nil, fmt.Sprintf("read outside %s: offset %d size %d of %d", o.name, p.Base, sz, o.size)
		}
		return ex.loadObj(o, p.Base, t), ""
	}
	lo, hi := ex.idxRange(p, o, sz)
	if hi < lo {
		return nil, "read outside object"
	}
	if _, ok := under(t).(*types.Basic); ok {
		if v := ex.tableRead(o, p, t, lo, hi); v != nil {
			return v, ""
		}
	}
	if hi-lo+1 > maxSymRead {
		unsup("symbolic read over %d cells", hi-lo+1)
	}
	v, ok := ex.selRead(o, p, t, lo, hi)
	if !ok {
		// one path for each index
		return ex.loadObj(o, p.Base+ex.concrete(st, p.Idx)*p.Stride, t), ""
	}
	return v, ""
}

func (ex *Exec) idxRange(p Ptr, o *Object, sz int64) (lo, hi int64) {
	ul, uh := ex.c.urange(p.Idx)
	lo = int64(ul)
	hi = p.Cnt - 1
	if uh < uint64(hi) {
		hi = int64(uh)
	}
	if p.Stride > 0 && hi >= lo && p.Base+hi*p.Stride+sz > o.size {
		hi = lo - 1
		if k := o.size - sz - p.Base; k >= 0 && k/p.Stride >= lo {
			hi = k / p.Stride
		}
	}
	return
}

func (ex *Exec) selRead(o *Object, p Ptr, t types.Type, lo, hi int64) (Value, bool) {
	if lo == hi {
		return ex.loadObj(o, p.Base+lo*p.Stride, t), true
	}
	mid := (lo + hi + 1) / 2
	a, ok := ex.selRead(o, p, t, lo, mid-1)
	if !ok {
		return nil, false
	}
	b, ok := ex.selRead(o, p, t, mid, hi)
	if !ok {
		return nil, false
	}
	return ex.iteV(ex.c.Ult(p.Idx, ex.c.Int(mid)), a, b)
}

// tableRead handles constant tables: GF(2)-linear ones become xors, large
// ones become a named uninterpreted function whose contents are recorded.
func (ex *Exec) tableRead(o *Object, p Ptr, t types.Type, lo, hi int64) Value {
	n := hi + 1
	if lo != 0 || n < 16 {
		return nil
	}
	sz := sizeof(t)
	key := fmt.Sprintf("%p/%d/%d/%d/%d", o, p.Base, p.Stride, n, sz)
	tb, ok := ex.tables[key]
	if !ok {
		vals := make([]uint64, n)
		for i := int64(0); i < n; i++ {
			v := ex.loadBits(o, p.Base+i*p.Stride, sz)
			if !v.IsConst() {
				ex.tables[key] = nil
				return nil
			}
			vals[i] = v.v
		}
		tb = &Table{vals: vals, w: uint8(sz * 8), name: fmt.Sprintf("tbl%d", len(ex.tables))}
		tb.linear = n&(n-1) == 0
		for i := int64(0); i < n && tb.linear; i++ {
			x := uint64(0)
			for b := int64(1); b < n; b <<= 1 {
				if i&b != 0 {
					x ^= vals[b]
				}
			}
			if x != vals[i] {
				tb.linear = false
			}
		}
		ex.tables[key] = tb
		ex.tabByName[tb.name] = tb
	}
	if tb == nil {
		return nil
	}
	if b, ok := under(t).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		if n <= maxSymRead {
			return nil
		}
	}
	if tb.linear {
		r := ex.c.Const(tb.w, 0)
		for b, k := int64(1), uint8(0); b < n; b, k = b<<1, k+1 {
			bit := ex.c.Extract(p.Idx, k, 1)
			r = ex.c.BXor(r, ex.c.Ite(ex.c.Eq(bit, ex.c.Const(1, 1)), ex.c.Const(tb.w, tb.vals[b]), ex.c.Const(tb.w, 0)))
		}
		return r
	}
	if n > 512 {
		return ex.c.mk(OpUF, tb.w, 0, tb.name, p.Idx)
	}
	return nil
}

type Table struct {
	vals   []uint64
	w      uint8
	name   string
	linear bool
}

func (ex *Exec) store(st *State, p Ptr, t types.Type, v Value) string {
	if p.IsNil() {
		return "nil pointer dereference"
	}
	o := ex.wobj(st, p.Obj)
	sz := sizeof(t)
	if o.ro {
		return "write to read-only " + o.name
	}
	if p.Idx == nil {
		if p.Base < 0 || p.Base+sz > o.size {
			return fmt.Sprintf("write outside %s: offset %d size %d of %d", o.name, p.Base, sz, o.size)
		}
		ex.storeObj(st, o, p.Base, t, v)
		return ""
	}
	lo, hi := ex.idxRange(p, o, sz)
	if hi-lo+1 > maxSymWrite {
		unsup("symbolic write over %d cells", hi-lo+1)
	}
	for k := lo; k <= hi; k++ {
		old := ex.loadObj(o, p.Base+k*p.Stride, t)
		nv, ok := ex.iteV(ex.c.Eq(p.Idx, ex.c.Int(k)), v, old)
		if !ok {
			unsup("symbolic write of unmergeable value")
		}
		ex.storeObj(st, o, p.Base+k*p.Stride, t, nv)
	}
	return ""
}

// iteV merges two values under a condition (true: a).
func (ex *Exec) iteV(p *Term, a, b Value) (Value, bool) {
	if p.IsTrue() {
		return a, true
	}
	if p.IsFalse() {
		return b, true
	}
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if x != y && ex.forkInts && x.w == 64 && x.op == OpConst && y.op == OpConst && !x.flt && !y.flt {
			return nil, false
		}
		return ex.c.Ite(p, x, y), true
	case Complex:
		y, ok := b.(Complex)
		if !ok {
			return nil, false
		}
		return Complex{ex.c.Ite(p, x.Re, y.Re), ex.c.Ite(p, x.Im, y.Im)}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x != y {
			return nil, false
		}
		return x, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.P != y.P || x.Cap != y.Cap {
			return nil, false
		}
		if x.Len != y.Len {
			if ex.noMergeLen {
				return nil, false
			}
			return Slice{x.P, ex.c.Ite(p, x.Len, y.Len), x.Cap}, true
		}
		return x, true
	case Str:
		y, ok := b.(Str)
		if !ok || x.P != y.P || x.Len != y.Len {
			return nil, false
		}
		return x, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil || y.T == nil {
			return x, x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := ex.iteV(p, x.V, y.V)
		return Iface{x.T, v}, ok
	case Fn:
		y, ok := b.(Fn)
		if !ok || x.F != y.F || x.B != y.B || x.Name != y.Name || len(x.Bind) != len(y.Bind) {
			return nil, false
		}
		nb := make([]Value, len(x.Bind))
		for i := range nb {
			v, ok := ex.iteV(p, x.Bind[i], y.Bind[i])
			if !ok {
				return nil, false
			}
			nb[i] = v
		}
		x.Bind = nb
		return x, true
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		r := StructV{F: make([]Value, len(x.F))}
		for i := range r.F {
			if r.F[i], ok = ex.iteV(p, x.F[i], y.F[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		r := ArrayV{E: make([]Value, len(x.E))}
		for i := range r.E {
			if r.E[i], ok = ex.iteV(p, x.E[i], y.E[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range r {
			if r[i], ok = ex.iteV(p, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case MapV:
		return a, a == b
	case Opaque:
		return a, a == b
	case *mapIter:
		y, ok := b.(*mapIter)
		return a, ok && x == y
	}
	return nil, false
}

// mergeStates tries to merge b into a (returns nil when impossible).  The
// returned condition selects a's values.
func (ex *Exec) mergeStates(a, b *State) (*State, *Term) {
	// common ancestor of path conditions
	pa, pb := a.pc, b.pc
	da, db := 0, 0
	if pa != nil {
		da = pa.depth
	}
	if pb != nil {
		db = pb.depth
	}
	ra, rb := ex.c.True, ex.c.True
	for da > db {
		ra = ex.c.And(pa.t, ra)
		pa = pa.up
		da--
	}
	for db > da {
		rb = ex.c.And(pb.t, rb)
		pb = pb.up
		db--
	}
	for pa != pb {
		ra = ex.c.And(pa.t, ra)
		rb = ex.c.And(pb.t, rb)
		pa, pb = pa.up, pb.up
	}
	cond := ra
	if cond.IsTrue() {
		// b is under a strictly stronger condition
		cond = ex.c.Not(rb)
		if cond.IsFalse() {
			return nil, nil
		}
	}
	// choose the simplest selector
	n := &State{gen: ex.newGen(), pc: pa}
	n.objs = make(map[int]*Object, len(a.objs)+4)
	for id, oa := range a.objs {
		ob, ok := b.objs[id]
		if !ok {
			ob, ok = ex.base.objs[id]
			if !ok {
				n.objs[id] = oa
				continue
			}
		}
		if oa == ob {
			n.objs[id] = oa
			continue
		}
		m := ex.mergeObj(n, cond, oa, ob)
		if m == nil {
			return nil, nil
		}
		n.objs[id] = m
	}
	for id, ob := range b.objs {
		if _, ok := a.objs[id]; ok {
			continue
		}
		if oa, ok := ex.base.objs[id]; ok {
			m := ex.mergeObj(n, cond, oa, ob)
			if m == nil {
				return nil, nil
			}
			n.objs[id] = m
			continue
		}
		n.objs[id] = ob
	}
	n.acc = a.acc.union(b.acc)
	if len(a.maps) > 0 || len(b.maps) > 0 {
		n.maps = map[int]*MapObj{}
		for id, m := range a.maps {
			if m2, ok := b.maps[id]; ok && m2 != m {
				return nil, nil
			}
			n.maps[id] = m
		}
		for id, m := range b.maps {
			n.maps[id] = m
		}
	}
	for k, v := range a.conc {
		if w, ok := b.conc[k]; ok && v == w {
			if n.conc == nil {
				n.conc = map[int32]uint64{}
			}
			n.conc[k] = v
		}
	}
	n.names = mergeNames(a.names, b.names)
	if len(a.extra) > 0 || len(b.extra) > 0 {
		n.extra = map[string]Value{}
		for k, v := range a.extra {
			w, ok := b.extra[k]
			if !ok {
				return nil, nil
			}
			m, ok := ex.iteV(cond, v, w)
			if !ok {
				return nil, nil
			}
			n.extra[k] = m
		}
		for k := range b.extra {
			if _, ok := a.extra[k]; !ok {
				return nil, nil
			}
		}
	}
	n.trace = a.trace
	ex.addPC(n, ex.c.Or(ra, rb))
	return n, cond
}

func (ex *Exec) mergeObj(n *State, cond *Term, a, b *Object) *Object {
	if a.size != b.size {
		return nil
	}
	m := *a
	m.gen = n.gen
	m.pages = append([]*page(nil), a.pages...)
	for i := range m.pages {
		pa, pb := a.pages[i], b.pages[i]
		if pa == pb {
			continue
		}
		var x, y page
		if pa != nil {
			x = *pa
		}
		if pb != nil {
			y = *pb
		}
		r := page{gen: n.gen}
		for j := 0; j < pageSize; j++ {
			ca, cb := x.c[j], y.c[j]
			if ca.sz == cb.sz && ca.back == cb.back {
				if ca.sz == 0 {
					r.c[j] = ca
					continue
				}
				v, ok := ex.iteV(cond, ca.v, cb.v)
				if !ok {
					return nil
				}
				r.c[j] = cell{v: v, sz: ca.sz, back: ca.back}
				continue
			}
			// empty versus written scalar
			ea, eb := ca.sz == 0 && ca.back == 0, cb.sz == 0 && cb.back == 0
			if ea || eb {
				full, fc := ca, cond
				if ea {
					full, fc = cb, ex.c.Not(cond)
				}
				if full.sz == 0 {
					r.c[j] = full // continuation byte; start handled in turn
					continue
				}
				// the other side must be empty over the whole cell
				z := zeroLike(ex, full.v)
				if z == nil {
					return nil
				}
				v, ok := ex.iteV(fc, full.v, z)
				if !ok {
					return nil
				}
				for k := 1; k < int(full.sz); k++ {
					if j+k >= pageSize {
						return nil
					}
					o := &x.c[j+k]
					if !ea {
						o = &y.c[j+k]
					}
					if o.sz != 0 || o.back != 0 {
						return nil
					}
				}
				r.c[j] = cell{v: v, sz: full.sz}
				continue
			}
			// differently sized scalar cells: give up
			return nil
		}
		m.pages[i] = &r
	}
	return &m
}

func zeroLike(ex *Exec, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return ex.c.Const(x.w, 0)
	case Ptr:
		return Ptr{}
	case Fn:
		return Fn{}
	case Iface:
		return Iface{}
	}
	return nil
}

func mergeNames(a, b map[string]int) map[string]int {
	same := len(a) == len(b)
	for k, v := range a {
		if b[k] != v {
			same = false
			break
		}
	}
	if same {
		return a
	}
	m := map[string]int{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		if v > m[k] {
			m[k] = v
		}
	}
	return m
}
