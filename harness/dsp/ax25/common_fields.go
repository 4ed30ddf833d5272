package ax25

import nd "github.com/samuel/go-dsp/verifnd"

// vAddrs constrains the address field of a frame: callsign k has lens[k]
// characters and is padded with spaces, and only the last address carries the
// end mark.
func vAddrs(f []byte, lens []int) {
	for k, n := range lens {
		a := f[7*k : 7*k+7]
		for i := 0; i < n && i < 6; i++ {
			nd.Assume(a[i]>>1 != ' ')
		}
		for i := n; i < 6; i++ {
			nd.Assume(a[i]>>1 == ' ')
		}
		if k == 0 {
			nd.Assume(a[1]&1 == 0)
		}
		end := byte(0)
		if k == len(lens)-1 {
			end = 1
		}
		nd.Assume(a[6]&1 == end)
	}
}

func vAddr(g Address, a []byte, n int, msg string) {
	want := make([]byte, n)
	for i := range want {
		want[i] = a[i] >> 1
	}
	nd.Assert(g.Callsign == string(want), msg+" callsign")
	nd.EqI(int64(g.SSID), int64(a[6]>>1&15), msg+" SSID", 0)
}

// vControl checks what follows the address field.
func vControl(g *Frame, f []byte) {
	nd.Assert(len(f) > 0, "harness: control field")
	c := f[0]
	nd.Assert(g.PollFinal == (c&0x10 != 0), "poll/final")
	isI, isS := c&1 == 0, c&3 == 1
	want := nd.IteI(isI, int64(IFrame), nd.IteI(isS, int64(SFrame), int64(UFrame)))
	nd.EqI(int64(g.Type), want, "frame type", 0)
	nd.Assert(nd.Imp(isI, nd.And(g.SendSeq == int(c>>1&7), g.RecvSeq == int(c>>5))), "sequence numbers of an I frame")
	nd.Assert(nd.Imp(isS, nd.And(byte(g.SupervisoryType) == c&15, g.RecvSeq == int(c>>5))), "supervisory subtype and sequence number")
	nd.Assert(nd.Imp(c&3 == 3, byte(g.UnnumberedType) == c&0xef), "unnumbered subtype")
	pid := nd.Or(isI, c&0xef == 0x03)
	if len(f) < 2 {
		nd.EqI(int64(len(g.Info)), 0, "no information", 0)
		return
	}
	nd.Assert(nd.Imp(pid, byte(g.PID) == f[1]), "PID")
	nd.Assert(nd.Imp(!pid, byte(g.PID) == 0), "no PID")
	nd.Assert(nd.Imp(pid, len(g.Info) == len(f)-2), "information length")
	nd.Assert(nd.Imp(!pid, len(g.Info) == 0), "no information")
	if pid && len(g.Info) == len(f)-2 {
		for i := range g.Info {
			nd.EqI(int64(g.Info[i]), int64(f[i+2]), "information", i)
		}
	}
}

// vNormal checks a frame with uncompressed addresses.
func vNormal(g *Frame, f []byte, lens []int) {
	nd.Assert(g != nil, "a frame is returned")
	if g == nil {
		return
	}
	vAddr(g.Destination, f, lens[0], "destination")
	vAddr(g.Source, f[7:], lens[1], "source")
	nd.EqI(int64(len(g.Repeaters)), int64(len(lens)-2), "number of repeaters", 0)
	if len(g.Repeaters) == len(lens)-2 {
		for k, r := range g.Repeaters {
			vAddr(r, f[14+7*k:], lens[2+k], "repeater")
		}
	}
	d, s := f[6]&0x80, f[13]&0x80
	nd.Assert(g.V1 == (d == s), "protocol version")
	nd.Assert(g.Command == nd.And(d != s, d != 0), "command/response")
	vControl(g, f[7*len(lens):len(f)-2])
}

// vFlexAssume chooses which of the six characters are present.
func vFlex(f []byte, present int) []byte {
	c := []byte{
		f[2] >> 2, f[2]&3<<4 | f[3]>>4, f[3]&15<<2 | f[4]>>6, f[4] & 63,
		f[5] >> 2, f[5]&3<<4 | f[6]>>4,
	}
	var want []byte
	nd.Assume(f[1]&1 == 1)
	for i, v := range c {
		if present>>uint(i)&1 == 1 {
			nd.Assume(v != 0)
			want = append(want, v+0x20)
		} else {
			nd.Assume(v == 0)
		}
	}
	return want
}

func vFlexCheck(g *Frame, f, want []byte) {
	nd.Assert(g != nil, "a frame is returned")
	if g == nil {
		return
	}
	nd.Assert(g.Destination.Callsign == string(want), "packed callsign")
	if len(want) > 0 {
		nd.EqI(int64(g.Destination.SSID), int64(f[6]&15), "packed SSID", 0)
	}
	nd.Assert(!g.V1, "protocol version")
	nd.Assert(g.Command == (f[1]&2 != 0), "command/response")
	nd.EqI(int64(len(g.Repeaters)), 0, "number of repeaters", 0)
	vControl(g, f[7:len(f)-2])
}

// vLens are callsign lengths by job number.
func vLens(k, addrs int) []int {
	var r []int
	for i := 0; i < addrs; i++ {
		r = append(r, (k*5+i*3)%7)
	}
	return r
}
