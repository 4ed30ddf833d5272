package main

import (
	"go/types"
)

// sprintf formats with a constant format string; !ok where a verb or operand
// is outside what is modelled.
func (ex *Exec) sprintf(st *State, format string, args Value) (Str, bool) {
	c := ex.c
	sl, ok := args.(Slice)
	if !ok {
		return Str{}, false
	}
	n := ex.concrete(st, sl.Len)
	any := types.NewInterfaceType(nil, nil)
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, c.Const(8, uint64(s[i])))
		}
	}
	k := int64(0)
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit(format[i : i+1])
			continue
		}
		i++
		zero, width := false, 0
		for ; i < len(format) && format[i] == '0'; i++ {
			zero = true
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			width = width*10 + int(format[i]-'0')
		}
		if i >= len(format) {
			return Str{}, false
		}
		verb := format[i]
		if verb == '%' {
			lit("%")
			continue
		}
		if k >= n {
			return Str{}, false
		}
		v, msg := ex.load(st, Ptr{Obj: sl.P.Obj, Base: sl.P.Base + k*16, Idx: sl.P.Idx, Stride: sl.P.Stride, Cnt: sl.P.Cnt}, any)
		k++
		a, isI := v.(Iface)
		if msg != "" || !isI || a.T == nil {
			return Str{}, false
		}
		if verb != 'd' && types.NewMethodSet(a.T).Len() > 0 {
			return Str{}, false
		}
		b, isB := under(a.T).(*types.Basic)
		if !isB {
			return Str{}, false
		}
		var bs []*Term
		switch x := a.V.(type) {
		case Str:
			if verb != 's' && verb != 'v' {
				return Str{}, false
			}
			bs = ex.strBytes(st, x, ex.concrete(st, x.Len))
			zero = false
		case *Term:
			base := uint64(10)
			switch {
			case b.Info()&types.IsInteger == 0:
				return Str{}, false
			case verb == 'x':
				base = 16
			case verb != 'd' && verb != 'v':
				return Str{}, false
			}
			neg := false
			u := x
			w := x.w
			if b.Info()&types.IsUnsigned == 0 {
				if s := c.Slt(x, c.Const(w, 0)); ex.concrete(st, c.BoolBV(s, 64)) == 1 {
					neg, u = true, c.Neg(x)
				}
			}
			if u.w < 64 {
				u = c.ZExt(u, 64)
			}
			digits := 1
			lim := base
			for digits < 20 && ex.concrete(st, c.BoolBV(c.Ult(u, c.Const(64, lim)), 64)) == 0 {
				digits++
				if lim > (1<<64-1)/base {
					break
				}
				lim *= base
			}
			bs = make([]*Term, digits)
			for d := digits - 1; d >= 0; d-- {
				r := c.Extract(c.DivRem(OpURem, u, c.Const(64, base)), 0, 8)
				ch := c.Add(r, c.Const(8, '0'))
				if base == 16 {
					ch = c.Ite(c.Ult(r, c.Const(8, 10)), ch, c.Add(r, c.Const(8, 'a'-10)))
				}
				bs[d] = ch
				u = c.DivRem(OpUDiv, u, c.Const(64, base))
			}
			if zero {
				for len(bs) < width && !(neg && len(bs) == width-1) {
					bs = append([]*Term{c.Const(8, '0')}, bs...)
				}
			}
			if neg {
				bs = append([]*Term{c.Const(8, '-')}, bs...)
			}
		default:
			return Str{}, false
		}
		for p := len(bs); p < width; p++ {
			lit(" ")
		}
		out = append(out, bs...)
	}
	if k != n {
		return Str{}, false
	}
	return Str{P: ex.newBytes(st, out, "Sprintf"), Len: c.Int(int64(len(out)))}, true
}

// sprint is fmt.Sprint or, with line, fmt.Sprintln of strings and integers.
func (ex *Exec) sprint(st *State, args Value, line bool) (Str, bool) {
	sl, ok := args.(Slice)
	if !ok {
		return Str{}, false
	}
	n := ex.concrete(st, sl.Len)
	f, wasStr := "", true
	for k := int64(0); k < n; k++ {
		v, msg := ex.load(st, Ptr{Obj: sl.P.Obj, Base: sl.P.Base + k*16, Idx: sl.P.Idx, Stride: sl.P.Stride, Cnt: sl.P.Cnt}, types.NewInterfaceType(nil, nil))
		a, isI := v.(Iface)
		if msg != "" || !isI || a.T == nil {
			return Str{}, false
		}
		_, isStr := a.V.(Str)
		// Sprint puts a space between operands neither of which is a string.
		if k > 0 && (line || !isStr && !wasStr) {
			f += " "
		}
		f += "%v"
		wasStr = isStr
	}
	if line {
		f += "\n"
	}
	return ex.sprintf(st, f, args)
}
