package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C25", "parse-any", H_C25_parseAny, func(t int) [][]int {
		var r [][]int
		for n := 10; n <= vTier(t, 18, 24); n++ {
			r = append(r, []int{n, 0})
		}
		for n := 19; n <= vTier(t, 50, 100); n++ {
			r = append(r, []int{n, 1})
		}
		return r
	})
}

// H_C25_parseAny: whatever passes the check, decoding it does not panic.
func H_C25_parseAny() {
	n := nd.P(0)
	f := nd.Bytes("f", n, 0)
	if nd.P(1) == 1 {
		// full-length callsigns
		for i := range f {
			if i%7 != 6 {
				nd.Assume(f[i]>>1 != ' ')
			}
		}
	}
	nd.Assume(vValid(f))
	ax := NewDecoder()
	ax.rxBuf = append(ax.rxBuf, f...)
	g := ax.processFrame()
	nd.Assert(g != nil || n < 17, "a frame is returned")
	if g != nil {
		nd.Assert(len(g.Info) <= n, "information length")
	}
}
