package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C33", "ax25", H_C33_ax25, func(t int) [][]int { return [][]int{{0, 0}, {0, 1}, {1, 0}, {2, 0}, {2, 1}} })
	nd.Reg("C33", "names", H_C33_names, func(t int) [][]int { return [][]int{{}} })
}

// H_C33_ax25: two goroutines with a decoder each.
func H_C33_ax25() {
	var run func(t *vTx)
	if nd.P(0) < 2 {
		x := append([]byte(nil), nd.Bytes("x", 3, 0)...)
		f := make([]byte, 0, 40)
		for i := 0; i < 20; i++ {
			f = append(f, byte('A'+i)<<1)
		}
		f[13] |= 1
		f[14], f[15] = 3, 0xf0
		if nd.P(0) == 1 {
			f[17], f[18] = x[0]&0x77, x[1]
		}
		c := vCRC(f)
		f = append(f, byte(c), byte(c>>8))
		run = func(t *vTx) {
			t.flag()
			t.data(f)
			t.flag()
		}
	} else {
		x := nd.U16("bits")
		run = func(t *vTx) {
			t.flag()
			for i := uint(0); i < 12; i++ {
				t.bit(int(x >> i & 1))
			}
		}
	}
	if nd.P(1) == 0 {
		a, b := vNewTx(), vNewTx()
		nd.Par(func() { run(a) }, func() { run(b) })
		return
	}
	nd.Par(func() { run(vNewTx()) }, func() { run(vNewTx()) })
}

// H_C33_names: text forms in two goroutines.
func H_C33_names() {
	v := nd.U8("v")
	op := func() {
		_ = PID(v).String()
		_ = FrameType(v).String()
		_ = UnnumberedType(v).String()
		_ = SupervisoryType(v).String()
		_ = Address{"CALL", int(v & 15)}.String()
	}
	nd.Par(op, op)
}
