package ax25

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C32", "address", H_C32_address, func(t int) [][]int {
		var r [][]int
		for n := 0; n <= vTier(t, 9, 20); n++ {
			r = append(r, []int{n})
		}
		return r
	})
	nd.Reg("C32", "distinct", H_C32_distinct, func(t int) [][]int {
		var r [][]int
		for a := 0; a <= vTier(t, 4, 6); a++ {
			for b := a; b <= vTier(t, 4, 6); b++ {
				r = append(r, []int{a, b})
			}
		}
		return r
	})
	one := func(int) [][]int { return [][]int{{}} }
	nd.Reg("C32", "pid", H_C32_pid, one)
	nd.Reg("C32", "frame", H_C32_frame, one)
	nd.Reg("C32", "unnumbered", H_C32_unnumbered, one)
	nd.Reg("C32", "supervisory", H_C32_supervisory, one)
}

// vDigits are the decimal digits of a number below 1000.
func vDigits(v int) string {
	d := func(x int) string { return string([]byte{byte('0' + x%10)}) }
	switch {
	case nd.Fork(v < 10):
		return d(v)
	case nd.Fork(v < 100):
		return d(v/10) + d(v)
	}
	return d(v/100) + d(v/10) + d(v)
}

// H_C32_address: callsign of n bytes, a dash, the SSID.
func H_C32_address() {
	cs := nd.Bytes("callsign", nd.P(0), 0)
	nd.Freeze()
	ssid := int(nd.U16("ssid"))
	nd.Assume(ssid < 1000)
	a := Address{Callsign: string(cs), SSID: ssid}
	nd.Assert(a.String() == string(cs)+"-"+vDigits(ssid), "address")
}

// H_C32_distinct: addresses that differ have texts that differ.
func H_C32_distinct() {
	x, y := nd.Bytes("x", nd.P(0), 0), nd.Bytes("y", nd.P(1), 0)
	i, j := int(nd.U8("i")&15), int(nd.U8("j")&15)
	for _, b := range [][]byte{x, y} {
		for _, c := range b {
			nd.Assume(nd.Or(c >= '0' && c <= '9', c >= 'A' && c <= 'Z'))
		}
	}
	a, b := Address{string(x), i}, Address{string(y), j}
	nd.Assert((a.String() == b.String()) == (a == b), "same text only for the same address")
}

func vHex(v byte) string {
	d := func(x byte) byte { return byte(nd.IteI(x < 10, int64('0'+x), int64('a'+x-10))) }
	return string([]byte{d(v >> 4), d(v & 15)})
}

// vName is the name of v, or its two hexadecimal digits.
func vName(v byte, codes []byte, names []string) string {
	for i, c := range codes {
		if nd.Fork(v == c) {
			return names[i]
		}
	}
	return vHex(v)
}

func H_C32_pid() {
	v := nd.U8("v")
	nd.Assert(PID(v).String() == vName(v,
		[]byte{0x01, 0x06, 0x07, 0x08, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0},
		[]string{"ISO 8208/CCITT X.25 PLP", "Compressed TCP/IP. RFC 1144", "Uncompressed TCP/IP", "Segmentation fragment",
			"TEXNET database protocol", "Link Quality Protocol", "Appletalk", "Appletalk ARP", "ARPA Internet Protocol",
			"ARPA Address Resolution", "FlexNet", "NET/ROM", "No Layer 3 Protocol Implemented"}), "PID")
}

func H_C32_frame() {
	v := nd.U8("v")
	nd.Assert(FrameType(v).String() == vName(v, []byte{0, 1, 2}, []string{"I", "S", "U"}), "frame type")
}

func H_C32_unnumbered() {
	v := nd.U8("v")
	nd.Assert(UnnumberedType(v).String() == vName(v,
		[]byte{0x6f, 0x2f, 0x43, 0x0f, 0x63, 0x87, 0x03, 0xaf, 0xe3},
		[]string{"SABME", "SABM", "DISC", "DM", "UA", "FRMR", "UI", "XID", "TEST"}), "unnumbered type")
}

func H_C32_supervisory() {
	v := nd.U8("v")
	nd.Assert(SupervisoryType(v).String() == vName(v, []byte{1, 5, 9, 0xd}, []string{"RR", "RNR", "REJ", "SREJ"}), "supervisory type")
}
