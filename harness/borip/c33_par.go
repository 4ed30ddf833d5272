package borip

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C33", "packets", H_C33_packets, func(t int) [][]int { return [][]int{{0}, {1}} })
	nd.Reg("C33", "client", H_C33_client, func(t int) [][]int {
		var r [][]int
		for k := 0; k < 14; k++ {
			r = append(r, []int{k})
		}
		return r
	})
}

// H_C33_packets: two goroutines with a packet reader each.
func H_C33_packets() {
	h := nd.P(0) == 1
	p := append(make([]byte, 0, 24), nd.Bytes("p", 13, 0)...)
	op := func() func() {
		rd := NewPacketReader(&vPackets{ps: [][]byte{p, p[:5]}}, h)
		o := make([]complex128, 2)
		return func() { rd.ReadSamples(o); rd.ReadSamples(o); rd.ReadSamples(o); rd.Header() }
	}
	a, b := op(), op()
	nd.Par(a, b)
}

// H_C33_client: two goroutines with a client each.
func H_C33_client() {
	k := nd.P(0)
	in := append([]byte(nil), "OK 1 2 3 4\nOK\nDEVICE x\n"...)
	in[3] = nd.U8("c")
	op := func() func() {
		b, _ := vClient(in)
		return func() {
			switch k {
			case 0:
				b.SelectDevice("x")
				b.Device()
			case 1:
				b.SetFrequency(1e6)
			case 2:
				b.Frequency()
			case 3:
				b.SetAntenna("A")
			case 4:
				b.Antenna()
			case 5:
				b.SetRate(1000)
			case 6:
				b.Rate()
			case 7:
				b.SetGain(3)
				b.Gain()
			case 8:
				b.SetDestination("1.2.3.4:5")
			case 9:
				b.Destination()
			case 10:
				b.SetHeaderEnabled(true)
			case 11:
				b.HeaderEnabled()
			case 12:
				b.Go()
				b.Stop()
			case 13:
				b.Go()
				b.Close()
			}
		}
	}
	a, b := op(), op()
	nd.Par(a, b)
}
