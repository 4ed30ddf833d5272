package borip

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C27", "packets", H_C27_packets, func(t int) [][]int {
		var r [][]int
		// header, slice length, failing read, packet sizes
		k := 0
		for h := 0; h < 2; h++ {
			for n := 0; n <= vTier(t, 21, 45); n++ {
				for s := 0; s <= vTier(t, 4, 8); s++ {
					k++
					r = append(r, []int{h, s, k % 7, n, (n*5 + s*3) % 14, (n*3 + s) % 9, 12})
				}
			}
			r = append(r, []int{h, 100, 0, 400, 399, 398, 397}, []int{h, 7, 2, 64, 3, 0, 41})
		}
		return r
	})
	nd.Reg("C27", "flags", H_C27_flags, func(int) [][]int { return [][]int{{}} })
	nd.Reg("C27", "mixed", H_C27_mixed, func(t int) [][]int {
		var r [][]int
		for h := 0; h < 2; h++ {
			for a := 0; a < vTier(t, 30, 125); a++ {
				r = append(r, []int{h, a%3 + 1, a * 7 % 5, a * 3 % 4, a % 6, 8 + a%11, 4 + a%9})
			}
		}
		return r
	})
}

// vReads reads with slices of the given lengths and compares with the packets.
func vReads(h bool, sizes, lens []int, fail int) {
	c := &vPackets{fails: fail}
	for _, n := range sizes {
		c.ps = append(c.ps, nd.Bytes("p", n, 0))
	}
	nd.Freeze()
	rd := NewPacketReader(c, h)
	other := &vPackets{}
	for i := 0; i < 5; i++ {
		other.ps = append(other.ps, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
	}
	or := NewPacketReader(other, !h)
	var cur []byte
	var hdr PacketHeader
	pi, reads, failIn := 0, 0, fail
	guard := complex(-7e300, 3e300)
	for call, k := range lens {
		out := make([]complex128, k)
		for i := range out {
			out[i] = guard
		}
		if k == 0 && len(cur) < 4 {
			continue
		}
		if call < 9 {
			m, err := or.ReadSamples(make([]complex128, 2))
			vNoErr(err, "the other reader")
			nd.Assert(m == 2 || m == 1, "the other reader")
		}
		n, err := rd.ReadSamples(out)
		short := false
		if len(cur) < 4 {
			reads++
			cur = nil
			lost := failIn == 1
			if failIn > 0 {
				failIn--
			}
			if lost || pi >= len(c.ps) {
				vErr(err, "a failing read is reported")
				nd.EqI(int64(n), 0, "no samples with an error", call)
				nd.EqI(int64(c.reads), int64(reads), "reads", call)
				continue
			}
			cur = c.ps[pi]
			pi++
			if h {
				if short = len(cur) < 4; !short {
					hdr = PacketHeader{cur[0], cur[1], uint16(cur[2]) | uint16(cur[3])<<8}
					cur = cur[4:]
				} else {
					cur = nil
				}
			}
		}
		nd.EqI(int64(c.reads), int64(reads), "a packet is read only when the one before is used up", call)
		if short {
			nd.Assert(err == ErrShortPacket, "a short packet is reported")
		} else {
			vNoErr(err, "no error")
		}
		want := len(cur) / 4
		if want > k {
			want = k
		}
		nd.EqI(int64(n), int64(want), "number of samples", call)
		for i := range out {
			if i >= want {
				nd.EqC128(out[i], guard, "beyond the samples", i)
				continue
			}
			re := int16(uint16(cur[4*i]) | uint16(cur[4*i+1])<<8)
			im := int16(uint16(cur[4*i+2]) | uint16(cur[4*i+3])<<8)
			nd.EqC128(out[i], complex(float64(re), float64(im)), "sample", i)
		}
		cur = cur[4*want:]
		if h && !short {
			g := rd.Header()
			nd.Assert(nd.And(nd.And(g.Flags == hdr.Flags, g.Notification == hdr.Notification), g.Idx == hdr.Idx), "header of the packet being delivered")
		}
	}
}

// H_C27_packets: slices of one length.
func H_C27_packets() {
	var lens []int
	for i := 0; i < 14; i++ {
		lens = append(lens, nd.P(1))
		if nd.P(1) == 0 && i%4 == 3 {
			lens[i] = 1
		}
	}
	vReads(nd.P(0) == 1, []int{nd.P(3), nd.P(4), nd.P(5), nd.P(6)}, lens, nd.P(2))
}

// H_C27_mixed: slices of several lengths.
func H_C27_mixed() {
	lens := []int{nd.P(1), nd.P(2), nd.P(3), nd.P(1), 9, nd.P(3), nd.P(2), 2, 1, 30, 3}
	vReads(nd.P(0) == 1, []int{nd.P(5), nd.P(6), nd.P(4), nd.P(5) + nd.P(6)}, lens, nd.P(4))
}

// H_C27_flags: the flags in a header byte.
func H_C27_flags() {
	p := nd.Bytes("p", 4, 0)
	nd.Freeze()
	c := &vPackets{ps: [][]byte{p}}
	rd := NewPacketReader(c, true)
	_, err := rd.ReadSamples(make([]complex128, 1))
	vNoErr(err, "no error")
	g := rd.Header()
	for i, f := range []int{FlagHardwareOverrun, FlagNetworkOverrun, FlagBufferOverrun, FlagEmptyPayload, FlagStreamStart, FlagStremEnd, FlagBufferUnderrun, FlagHardwareTimeout} {
		nd.AssertI((int(g.Flags)&f != 0) == (p[0]>>uint(i)&1 == 1), "flag", i)
	}
	nd.Assert((g.Flags == FlagNone) == (p[0] == 0), "no flag")
}
