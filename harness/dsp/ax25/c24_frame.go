package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C24", "delivered", H_C24_delivered, func(t int) [][]int {
		var r [][]int
		for n := 3; n <= vTier(t, 17, 24); n++ {
			r = append(r, []int{n, -1})
		}
		for _, n := range []int{40, 64, 128, 256, 511, 512} {
			r = append(r, []int{n, n % len(vMasks)})
		}
		return r
	})
	nd.Reg("C24", "accepted", H_C24_accepted, func(t int) [][]int {
		var r [][]int
		for _, n := range []int{17, 18, 19, 20, 22, 25, 40, 64, 128, 256, 512} {
			r = append(r, []int{n, n % len(vMasks)})
		}
		return r
	})
}

// H_C24_delivered: whatever is between two flags, it is not delivered unless
// its check sequence is right.
func H_C24_delivered() {
	n, m := nd.P(0), nd.P(1)
	f := nd.Bytes("f", n, 0)
	if m >= 0 {
		for i := range f {
			if i < n/2 || i > n/2+2 {
				f[i] &= vMasks[m]
			}
		}
	}
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(!vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 0, "a frame with a wrong check sequence is not delivered", n)
}

// H_C24_accepted: a frame with a correct one is.
func H_C24_accepted() {
	f := vFrame("f", nd.P(0), vMasks[nd.P(1)], 15, 3)
	t := vNewTx()
	t.flag()
	t.data(f)
	nd.Assume(vValid(f))
	t.flag()
	nd.EqI(int64(t.n), 1, "a frame with a correct check sequence is delivered", 0)
}
