package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C26", "fields", H_C26_fields, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 7; k++ {
			for addrs := 2; addrs <= vTier(t, 4, 10); addrs++ {
				r = append(r, []int{k, addrs, (k + addrs) % 4, 3 + (k+addrs)%3})
			}
		}
		return append(r, []int{6, 10, 2, 4})
	})
	nd.Reg("C26", "flexnet", H_C26_flexnet, func(t int) [][]int {
		var r [][]int
		for p := 0; p < 64; p += vTier(t, 3, 1) {
			r = append(r, []int{10 + p%3, p})
		}
		return r
	})
	nd.Reg("C26", "kept", H_C26_kept, func(t int) [][]int {
		return [][]int{{22, 22}, {24, 30}, {40, 20}, {17, 40}, {vTier(t, 60, 300), vTier(t, 60, 300)}}
	})
}

// H_C26_fields: a frame with a normal header, received from the line.
func H_C26_fields() {
	k, addrs, info, z := nd.P(0), nd.P(1), nd.P(2), nd.P(3)
	n := 7*addrs + 3 + info
	x := nd.Bytes("f", n, 0)
	f := append([]byte(nil), x...)
	for i := range f {
		switch {
		case i < 7*addrs && i%7 != 6:
			f[i] &= ^(1<<uint(z) | 1) // a shifted character
		case i < 7*addrs:
			f[i] &= 0xf7
		case i == 7*addrs:
			// any control field
		default:
			f[i] &= 0x77
		}
	}
	lens := vLens(k, addrs)
	vAddrs(f, lens)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 1, "one frame", 0)
	g := t.last
	vNormal(g, f, lens)
	// a frame once returned never changes
	vLater(t, addrs)
	vNormal(g, f, lens)
}

// vLater sends a frame of other addresses and contents.
func vLater(t *vTx, addrs int) {
	var f []byte
	for k := 0; k < addrs; k++ {
		f = append(f, 'X'<<1, '9'<<1, 'Y'<<1, '8'<<1, 'Z'<<1, '7'<<1, byte(2*k+4))
	}
	f[7*addrs-1] |= 1
	f = append(f, 0x03, 0xf0, 0xa5, 0x5a, 0xc3, 0x3c)
	c := vCRC(f)
	n := t.n
	t.data(append(f, byte(c), byte(c>>8)))
	t.flag()
	nd.EqI(int64(t.n), int64(n+1), "the later frame", 0)
	nd.EqI(int64(len(t.last.Repeaters)), int64(addrs-2), "the later frame's repeaters", 0)
}

// H_C26_flexnet: a frame with a compressed header, received from the line.
func H_C26_flexnet() {
	n, p := nd.P(0), nd.P(1)
	x := nd.Bytes("f", n, 0)
	f := append([]byte(nil), x...)
	want := vFlex(f, p)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 1, "one frame", 0)
	g := t.last
	vFlexCheck(g, f, want)
	vLater(t, 2)
	vFlexCheck(g, f, want)
}

// H_C26_kept: a frame stays as it is while the next one is received.
func H_C26_kept() {
	f, g := vFrame("f", nd.P(0), 0x77, 15, 3), vFrame("g", nd.P(1), 0x66, 15, 3)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	a := t.last
	vSame(a, f)
	t.data(g)
	nd.Assume(vValid(g))
	t.flag()
	nd.EqI(int64(t.n), 2, "two frames", 0)
	vSame(a, f)
	vSame(t.last, g)
}
