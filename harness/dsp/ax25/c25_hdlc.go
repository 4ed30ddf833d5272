package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C25", "recover", H_C25_recover, func(t int) [][]int {
		var r [][]int
		// every content
		for n := 17; n <= vTier(t, 27, 33); n++ {
			r = append(r, []int{n, 0, 15, n, n % 5, n % 3 * 4})
		}
		// every prefix
		for g := 1; g <= vTier(t, 16, 24); g++ {
			r = append(r, []int{20, g % len(vMasks), 0, 0, g % 5, g})
		}
		// longer frames, three free bytes anywhere
		for w := 14; w < 48; w += vTier(t, 3, 1) {
			r = append(r, []int{50, w % len(vMasks), w, 3, w % 5, w % 4})
		}
		for m := range vMasks {
			r = append(r, []int{vTier(t, 100, 300) + m, m, 60, 4, m % 5, 0})
		}
		for _, n := range []int{255, 256, 257, 510, 511, 512} {
			r = append(r, []int{n, n % 6, n - 3, 3, n % 5, 2})
		}
		return r
	})
	nd.Reg("C25", "abort", H_C25_abort, func(t int) [][]int {
		var r [][]int
		for at := 0; at <= 24*8; at += vTier(t, 5, 1) {
			r = append(r, []int{24, at % len(vMasks), at, at%3 + 7})
		}
		return r
	})
	nd.Reg("C25", "oversize", H_C25_oversize, func(t int) [][]int {
		return [][]int{{513, 0}, {514, 1}, {520, 2}, {vTier(t, 600, 1200), 3}}
	})
	nd.Reg("C25", "tail", H_C25_tail, func(t int) [][]int {
		var r [][]int
		for _, p := range []int{500, 511, 512, 513, 514, 515, 520, 529, vTier(t, 540, 700), vTier(t, 560, 1030)} {
			r = append(r, []int{0, p, 20, p % len(vMasks)})
		}
		for _, p := range []int{0, 1, 5, 17, 18, 40} {
			r = append(r, []int{1, p, 20, p % len(vMasks)})
		}
		return r
	})
	nd.Reg("C25", "noflag", H_C25_noFlag, func(t int) [][]int {
		return [][]int{{20, 0, 0}, {24, 1, 7}, {24, 2, 3}, {30, 3, 12}}
	})
	nd.Reg("C25", "anybits", H_C25_anyBits, func(t int) [][]int {
		var r [][]int
		for n := 0; n <= 14; n++ {
			r = append(r, []int{n, vTier(t, 10, 12), n % len(vMasks)})
		}
		return append(r, []int{15, vTier(t, 8, 9), 3}, []int{16, 8, 4}, []int{17, 3, 2})
	})
	nd.Reg("C25", "sequence", H_C25_sequence, func(t int) [][]int {
		var r [][]int
		for g := 0; g < 5; g++ {
			r = append(r, []int{19, 22 + g, g})
		}
		return r
	})
}

// H_C25_recover: one valid frame between flags comes back.
func H_C25_recover() {
	n, mask, win, winLen, kind, garbage := nd.P(0), vMasks[nd.P(1)], nd.P(2), nd.P(3), nd.P(4), nd.P(5)
	f := vFrame("f", n, mask, win, winLen)
	t := vNewTx()
	for i := 0; i < garbage; i++ {
		t.bit(int(nd.U8("g") & 1))
	}
	t.flag()
	switch kind {
	case 1:
		t.flag()
	case 2:
		t.flagTail()
	case 3:
		t.flagTail()
		t.flag()
	}
	t.n, t.last = 0, nil
	t.data(f)
	nd.Assume(vValid(f))
	for i := 0; i < 7; i++ {
		t.bit([]int{0, 1, 1, 1, 1, 1, 1}[i])
	}
	nd.EqI(int64(t.n), 0, "no frame before the closing flag", 0)
	t.bit(0)
	nd.EqI(int64(t.n), 1, "one frame at the closing flag", 0)
	vSame(t.last, f)
	if kind == 4 {
		t.flag()
		t.flagTail()
		nd.EqI(int64(t.n), 1, "no further frame", 0)
	}
}

// H_C25_abort: seven or more ones inside a frame end it; the next frame is
// received.
func H_C25_abort() {
	n, mask, at, ones := nd.P(0), vMasks[nd.P(1)], nd.P(2), nd.P(3)
	f := vFrame("f", n, mask, 0, 0)
	t := vNewTx()
	t.flag()
	k := 0
	for _, b := range f {
		for i := uint(0); i < 8; i++ {
			if k == at {
				break
			}
			t.bit(int(b >> i & 1))
			if t.hist&0x1f == 0x1f {
				t.bit(0)
			}
			k++
		}
	}
	for i := 0; i < ones; i++ {
		t.bit(1)
	}
	t.bit(0)
	// the rest, should anyone still be listening
	for i := at / 8; i < n; i++ {
		t.data(f[i : i+1])
	}
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 0, "an aborted frame is not returned", at)
	t.data(f)
	t.flag()
	nd.EqI(int64(t.n), 1, "the next frame is returned", at)
	vSame(t.last, f)
}

// H_C25_oversize: too long a frame is dropped, the next one returned.
func H_C25_oversize() {
	n, mask := nd.P(0), vMasks[nd.P(1)]
	f := vFrame("f", n, mask, 100, 2)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 0, "an oversized frame is not returned", 0)
	g := vFrame("g", 21, mask, 15, 9)
	t.data(g)
	nd.Assume(vValid(g))
	t.flag()
	nd.EqI(int64(t.n), 1, "the next frame is returned", 0)
	vSame(t.last, g)
}

// H_C25_tail: what ends a transmission that was too long, or follows an abort,
// is not a frame even when its check sequence is right.
func H_C25_tail() {
	kind, p, n, mask := nd.P(0), nd.P(1), nd.P(2), vMasks[nd.P(3)]
	x := nd.Bytes("x", p, 0)
	for i := range x {
		x[i] &= mask
		if i >= 16 && i < p-64 {
			x[i] = mask
		}
	}
	f := vFrame("f", n, mask, 15, 2)
	nd.Assume(vValid(f))
	t := vNewTx()
	t.flag()
	t.data(x)
	if kind == 1 {
		for i := 0; i < 8; i++ {
			t.bit(1)
		}
		t.bit(0)
	}
	t.data(f)
	t.flag()
	nd.EqI(int64(t.n), 0, "the tail of a dropped transmission is not returned", 0)
	g := vFrame("g", 21, mask, 15, 9)
	t.data(g)
	nd.Assume(vValid(g))
	t.flag()
	nd.EqI(int64(t.n), 1, "the next frame is returned", 0)
	vSame(t.last, g)
}

// H_C25_noFlag: bits before the first flag never make a frame. A decoder
// starts as if it had heard a zero.
func H_C25_noFlag() {
	n, mask, garbage := nd.P(0), vMasks[nd.P(1)], nd.P(2)
	f := vFrame("f", n, mask, 15, 6)
	t := vNewTx()
	flag := false
	hist := byte(0)
	for i := 0; i < garbage; i++ {
		b := nd.U8("g") & 1
		hist = hist<<1 | b
		flag = nd.Or(flag, hist == 0x7e)
		t.bit(int(b))
	}
	t.hist = 0
	t.bit(0) // keeps the garbage from joining the frame
	hist <<= 1
	flag = nd.Or(flag, hist == 0x7e)
	nd.Assume(!flag)
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 0, "no frame without an opening flag", 0)
	t.data(f)
	t.flag()
	nd.EqI(int64(t.n), 1, "the next frame is returned", 0)
	vSame(t.last, f)
}

// H_C25_anyBits: a flag, n bytes, any bits, a flag: no panic, and what comes
// back has at most one frame per flag.
func H_C25_anyBits() {
	n, k, mask := nd.P(0), nd.P(1), vMasks[nd.P(2)]
	x := nd.Bytes("x", n, 0)
	for i := range x {
		x[i] &= mask
		if i < 14 && n > 8 {
			x[i] = vHead[i]
		}
	}
	t := vNewTx()
	t.flag()
	t.data(x)
	flags := 0
	h := t.hist
	for i := 0; i < k; i++ {
		b := nd.U8("b") & 1
		h = h<<1 | b
		flags += int(nd.IteI(h == 0x7e, 1, 0))
		t.bit(int(b))
		nd.AssertI(t.n <= flags, "frames are returned at flags only", i)
	}
	t.flag()
	nd.Assert(t.n <= flags+1, "frames are returned at flags only")
	// whatever happened, the next frame is received
	g := vFrame("g", 19, mask, 15, 4)
	t.n = 0
	t.data(g)
	nd.Assume(vValid(g))
	t.flag()
	nd.EqI(int64(t.n), 1, "the next frame is returned", 0)
	vSame(t.last, g)
}

// H_C25_sequence: frames separated by shared or repeated flags.
func H_C25_sequence() {
	f, g := vFrame("f", nd.P(0), 0xee, 15, 4), vFrame("g", nd.P(1), 0x66, 17, 3)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	for k := 0; k < nd.P(2); k++ {
		if k%2 == 0 {
			t.flagTail()
		} else {
			t.flag()
		}
	}
	nd.EqI(int64(t.n), 1, "first frame", 0)
	vSame(t.last, f)
	t.data(g)
	nd.Assume(vValid(g))
	t.flag()
	nd.EqI(int64(t.n), 2, "second frame", 0)
	vSame(t.last, g)
}
