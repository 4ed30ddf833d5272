package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C32", "received", H_C32_received, func(t int) [][]int {
		var r [][]int
		for n := 0; n <= 6; n++ {
			r = append(r, []int{n})
		}
		return r
	})
}

// H_C32_received: the address in a received address field.
func H_C32_received() {
	n := nd.P(0)
	f := nd.Bytes("f", 7, 0)
	for i := 0; i < 6; i++ {
		if i < n {
			nd.Assume(f[i]>>1 != ' ')
		} else {
			nd.Assume(f[i]>>1 == ' ')
		}
	}
	want := make([]byte, n)
	for i := range want {
		want[i] = f[i] >> 1
	}
	ssid := int(f[6] >> 1 & 15)
	a := parseAddress(f)
	nd.Assert(a.String() == string(want)+"-"+vDigits(ssid), "received address")
}
