package ax25

import nd "github.com/samuel/go-dsp/verifnd"

// Masks that keep runs of ones short, so that no bit is stuffed.
var vMasks = []byte{0x66, 0x77, 0xee, 0xdb, 0xbb, 0x6d}

var vHead = []byte{
	'A' << 1, 'P' << 1, 'R' << 1, 'S' << 1, ' ' << 1, ' ' << 1, 0xe0,
	'N' << 1, '0' << 1, 'C' << 1, 'A' << 1, 'L' << 1, 'L' << 1, 0x7f,
}

// vFrame makes a frame of n bytes, yet to be made valid: UI with a fixed
// header, its contents limited to the mask except in the window, where anything goes.
func vFrame(name string, n int, mask byte, win, winLen int) []byte {
	x := nd.Bytes(name, n, 0)
	f := make([]byte, n)
	for i := range f {
		switch {
		case i >= win && i < win+winLen:
			f[i] = x[i]
		default:
			f[i] = x[i] & mask
		}
		if i < 14 {
			f[i] = vHead[i]
		} else if i == 14 {
			f[i] = 0x03
		} else if i == 15 && n > 17 {
			f[i] = 0xf0
		}
	}
	return f
}

// vSame: the frame received is the one sent (a UI frame with vHead).
func vSame(g *Frame, f []byte) {
	nd.Assert(g != nil, "a frame is returned")
	if g == nil {
		return
	}
	n := len(f) - 2
	nd.Assert(g.Destination.Callsign == "APRS" && g.Destination.SSID == 0, "destination")
	nd.Assert(g.Source.Callsign == "N0CALL" && g.Source.SSID == 15, "source")
	nd.EqI(int64(len(g.Repeaters)), 0, "no repeaters", 0)
	nd.Assert(!g.V1 && g.Command, "command")
	nd.Assert(g.Type == UFrame && g.UnnumberedType == UI && !g.PollFinal, "control")
	if n < 16 {
		nd.EqI(int64(len(g.Info)), 0, "no information", 0)
		return
	}
	nd.Assert(byte(g.PID) == f[15], "PID")
	nd.EqI(int64(len(g.Info)), int64(n-16), "information length", 0)
	if len(g.Info) == n-16 {
		for i := range g.Info {
			nd.EqI(int64(g.Info[i]), int64(f[16+i]), "information", i)
		}
	}
}
