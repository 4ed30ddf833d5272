package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C26", "parse", H_C26_parse, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 7; k++ {
			for addrs := 2; addrs <= vTier(t, 5, 10); addrs++ {
				r = append(r, []int{k, addrs, (k + addrs) % 4})
			}
		}
		return r
	})
	nd.Reg("C26", "parse-flexnet", H_C26_parseFlex, func(t int) [][]int {
		var r [][]int
		for p := 0; p < 64; p++ {
			r = append(r, []int{10 + p%3, p})
		}
		return r
	})
}

// H_C26_parse: any frame with a normal header, decoded directly.
func H_C26_parse() {
	k, addrs, info := nd.P(0), nd.P(1), nd.P(2)
	n := 7*addrs + 3 + info
	x := nd.Bytes("f", n, 0)
	f := append([]byte(nil), x...)
	lens := vLens(k, addrs)
	vAddrs(f, lens)
	nd.Assume(vValid(f))
	ax := NewDecoder()
	ax.rxBuf = append(ax.rxBuf, f...)
	vNormal(ax.processFrame(), f, lens)
}

// H_C26_parseFlex: any frame with a FlexNet header, decoded directly.
func H_C26_parseFlex() {
	n, p := nd.P(0), nd.P(1)
	x := nd.Bytes("f", n, 0)
	f := append([]byte(nil), x...)
	want := vFlex(f, p)
	nd.Assume(vValid(f))
	ax := NewDecoder()
	ax.rxBuf = append(ax.rxBuf, f...)
	vFlexCheck(ax.processFrame(), f, want)
}
