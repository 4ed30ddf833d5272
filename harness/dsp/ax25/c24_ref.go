package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C24", "crc", H_C24_crc, func(t int) [][]int {
		var r [][]int
		for n := 2; n <= vTier(t, 24, 40); n++ {
			r = append(r, []int{n})
		}
		return append(r, []int{64}, []int{257}, []int{512})
	})
	nd.Reg("C24", "damage", H_C24_damage, func(t int) [][]int {
		return [][]int{{10}, {17}, {64}, {256}, {512}}
	})
	nd.Reg("C24", "errors", H_C24_errors, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 2; k++ {
			for _, n := range []int{10, vTier(t, 12, 17), vTier(t, 24, 40)} {
				if k == 1 {
					r = append(r, []int{n, k, 0})
					continue
				}
				for p := 0; p < n*8 && n < 18; p++ {
					r = append(r, []int{n, k, p})
				}
			}
		}
		return r
	})
}

// H_C24_crc: the check accepts exactly the frames with a correct sequence.
// The last two bytes are written as the correct ones changed by e.
func H_C24_crc() {
	n := nd.P(0)
	x := nd.Bytes("x", n, 0)
	e := nd.U16("e")
	nd.Freeze()
	y := append([]byte(nil), x...)
	c := vCRC(y[:n-2])
	y[n-2], y[n-1] = byte(c), byte(c>>8)
	nd.Assert(checkCrcCcitt(y), "accepted with a correct check sequence")
	c ^= e
	y[n-2], y[n-1] = byte(c), byte(c>>8)
	nd.Assert(checkCrcCcitt(y) == (e == 0), "rejected with a wrong check sequence")
}

// vSyndrome is the effect of an error pattern on the check sequence.
func vSyndrome(e []byte) uint16 {
	crc := uint16(0)
	for _, b := range e {
		for i := uint(0); i < 8; i++ {
			x := (crc ^ uint16(b>>i)) & 1
			crc = crc>>1 ^ 0x8408&-x
		}
	}
	return crc
}

// H_C24_damage: a frame that passes still passes with errors e added exactly
// if e has syndrome zero.
func H_C24_damage() {
	n := nd.P(0)
	x, e := nd.Bytes("x", n, 0), nd.Bytes("e", n, 0)
	nd.Freeze()
	y := make([]byte, n)
	for i := range y {
		y[i] = x[i] ^ e[i]
	}
	nd.Assume(checkCrcCcitt(x))
	nd.Assert(checkCrcCcitt(y) == (vSyndrome(e) == 0), "damaged frame accepted only with syndrome zero")
}

// H_C24_errors: up to three bit errors, or a burst of up to 16 bits, have a
// syndrome other than zero.
func H_C24_errors() {
	n, kind := nd.P(0), nd.P(1)
	e := make([]byte, n)
	if kind == 0 {
		first := nd.P(2)
		e[first>>3] ^= 1 << uint(first&7)
		// two more, which may be the same bit
		for k := 0; k < 2; k++ {
			p := nd.U16("p")
			for i := range e {
				e[i] ^= vBitAt(p, i)
			}
		}
	} else {
		p := nd.U16("p")
		pat := uint32(nd.U16("e")) << (p & 7)
		for i := range e {
			for k := uint(0); k < 3; k++ {
				hit := i >= int(k) && p>>3 == uint16(i)-uint16(k)
				e[i] ^= byte(nd.IteI(hit, int64(byte(pat>>(8*k))), 0))
			}
		}
	}
	any := false
	for i := range e {
		any = nd.Or(any, e[i] != 0)
	}
	nd.Assume(any)
	nd.Assert(vSyndrome(e) != 0, "few errors have a syndrome other than zero")
}

func vBitAt(p uint16, i int) byte {
	return byte(nd.IteI(p>>3 == uint16(i), int64(1)<<(p&7), 0))
}
