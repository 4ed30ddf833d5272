package borip

import (
	"strconv"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C29", "command", H_C29_command, func(t int) [][]int {
		var r [][]int
		for m := 0; m < 15; m++ {
			for n := 1; n <= vTier(t, 3, 8); n++ {
				r = append(r, []int{m, n * m % 8, (m + n) % 4, n})
			}
		}
		for n := 0; n <= vTier(t, 16, 40); n++ {
			r = append(r, []int{0, n, n % 4, 3}, []int{3, n, n % 4, 4}, []int{9, n, n % 4, 5})
		}
		return r
	})
	nd.Reg("C29", "two", H_C29_two, func(t int) [][]int {
		var r [][]int
		for k := 0; k < vTier(t, 30, 225); k++ {
			r = append(r, []int{k % 15, (k*7 + k/15) % 15, k % 5})
		}
		return r
	})
	nd.Reg("C29", "history", H_C29_history, func(t int) [][]int {
		var r [][]int
		n := vTier(t, 4, 6)
		max := 1
		for i := 0; i < n; i++ {
			max *= 5
		}
		for k := 0; k < max; k += vTier(t, 3, 5) {
			r = append(r, []int{n, k, 0})
		}
		for k := 0; k < 125; k++ {
			r = append(r, []int{3, k, k % 4})
		}
		return r
	})
}

// vCall calls method m with arguments made from text and x, and gives the
// line it should send.
func vCall(b *BorIP, m int, text string, x float64, on bool) string {
	num := strconv.FormatFloat(x, 'f', -1, 64)
	switch m {
	case 0:
		b.SelectDevice(text)
		return "DEVICE " + text + "\n"
	case 1:
		b.SetFrequency(x)
		return "FREQ " + num + "\n"
	case 2:
		b.Frequency()
		return "FREQ\n"
	case 3:
		b.SetAntenna(text)
		return "ANTENNA " + text + "\n"
	case 4:
		b.Antenna()
		return "ANTENNA\n"
	case 5:
		b.SetRate(x)
		return "RATE " + num + "\n"
	case 6:
		b.Rate()
		return "RATE\n"
	case 7:
		b.SetGain(x)
		return "GAIN " + num + "\n"
	case 8:
		b.Gain()
		return "GAIN\n"
	case 9:
		b.SetDestination(text)
		return "DEST " + text + "\n"
	case 10:
		b.Destination()
		return "DEST\n"
	case 11:
		b.SetHeaderEnabled(on)
		if on {
			return "HEADER ON\n"
		}
		return "HEADER OFF\n"
	case 12:
		b.HeaderEnabled()
		return "HEADER\n"
	case 13:
		b.Go()
		return "GO\n"
	}
	b.Stop()
	return "STOP\n"
}

var vNumbers = []float64{0, 1, -1, 0.5, 1e8, 144390000, 2.4e9, 1e21, 1e-9, -17.25, 1.7976931348623157e308, 5e-324, 123456789.125}

// H_C29_command: one line, sent before the response is read, and one line read.
func H_C29_command() {
	m, n, chunk := nd.P(0), nd.P(1), nd.P(3)
	text := nd.Bytes("text", n, 0)
	for i := range text {
		nd.Assume(text[i] != '\n')
	}
	x := nd.F64("x")
	on := nd.Bool("on")
	if nd.P(2) != 0 {
		x = vNumbers[(n+m+nd.P(2))%len(vNumbers)]
	}
	in := []byte(vMethodWords[m] + " FAIL x\r\nGAIN 25.5\n")
	b, c := vClient(in)
	c.chunk = []int{0, 1, 3, 7, 100}[chunk%5]
	want := vCall(b, m, string(text), x, on)
	nd.Assert(string(c.out) == want, "the line sent")
	nd.Assert(c.firstRead == len(want), "sent before the response is awaited")
	// the second response belongs to the next command
	g, err := b.Gain()
	vNoErr(err, "the next response")
	nd.Eq64(g, 25.5, "the next response", 0)
	nd.Assert(string(c.out) == want+"GAIN\n", "the next line sent")
	nd.EqI(int64(c.closed), 0, "the connection stays open", 0)
}

var vMethodWords = []string{"DEVICE", "FREQ", "FREQ", "ANTENNA", "ANTENNA", "RATE", "RATE", "GAIN", "GAIN", "DEST", "DEST", "HEADER", "HEADER", "GO", "STOP"}

// H_C29_two: two commands one after the other.
func H_C29_two() {
	m, k := nd.P(0), nd.P(1)
	t1, t2 := nd.Bytes("t", 3, 0), nd.Bytes("t", 5, 0)
	for i := range t1 {
		nd.Assume(t1[i] != '\n')
	}
	for i := range t2 {
		nd.Assume(t2[i] != '\n')
	}
	x, y := nd.F64("x"), nd.F64("y")
	on := nd.Bool("on")
	b, c := vClient([]byte(vMethodWords[m] + " OK\n" + vMethodWords[k] + " OK\nRATE 5\n"))
	c.chunk = []int{0, 1, 3, 7, 100}[nd.P(2)]
	w := vCall(b, m, string(t1), x, on)
	w += vCall(b, k, string(t2), y, !on)
	nd.Assert(string(c.out) == w, "the lines sent")
	g, err := b.Rate()
	vNoErr(err, "the third response")
	nd.Eq64(g, 5, "the third response", 0)
}

// H_C29_history: what Close sends after a history of commands that succeed or not.
func H_C29_history() {
	n, k, end := nd.P(0), nd.P(1), nd.P(2)
	st := nd.Bytes("status", 2*n, 0)
	var in []byte
	want := ""
	running, device := false, false
	var ops []int
	var oks []bool
	for i := 0; i < n; i++ {
		op := k % 5
		k /= 5
		a, b := st[2*i], st[2*i+1]
		nd.Assume(a > ' ' && a < 0x7f && a != '|')
		nd.Assume(b > ' ' && b < 0x7f && b != '|')
		ok := nd.And(a == 'O', b == 'K')
		switch op {
		case 0:
			in = append(append(append(in, "GO "...), a, b), '\n')
			want += "GO\n"
			running = nd.Or(running, ok)
		case 1:
			in = append(append(append(in, "STOP "...), a, b), "\r\n"...)
			want += "STOP\n"
			running = nd.And(running, !ok)
		case 2:
			ok = a != '-'
			in = append(append(append(in, "DEVICE "...), a, b), "|1|2|3|4|5|b|c\n"...)
			want += "DEVICE d\n"
			device = nd.Or(device, ok)
		case 3:
			in = append(append(append(in, "GAIN "...), a, b), '\n')
			want += "GAIN 1\n"
		case 4:
			ok = true
			in = append(in, "DEVICE -\n"...)
			want += "DEVICE !\n"
			device = false
		}
		ops, oks = append(ops, op), append(oks, ok)
	}
	in = append(in, []string{"STOP OK\nDEVICE -\n", "ERROR\nERROR\n", "", "STOP"}[end]...)
	b, c := vClient(in)
	for i, op := range ops {
		var err error
		switch op {
		case 0:
			err = b.Go()
		case 1:
			err = b.Stop()
		case 2:
			_, err = b.SelectDevice("d")
		case 3:
			err = b.SetGain(1)
		case 4:
			_, err = b.SelectDevice("!")
		}
		nd.Assert((err == nil) == oks[i], "outcome")
	}
	nd.Assert(string(c.out) == want, "what was sent")
	c.failWrite = end == 2
	b.Close()
	got := string(c.out)
	if end == 2 {
		nd.Assert(got == want, "what was sent")
	} else {
		nd.Assert(nd.Imp(nd.And(running, device), got == want+"STOP\nDEVICE !\n"), "stopped and released")
		nd.Assert(nd.Imp(nd.And(running, !device), got == want+"STOP\n"), "stopped")
		nd.Assert(nd.Imp(nd.And(!running, device), got == want+"DEVICE !\n"), "released")
		nd.Assert(nd.Imp(nd.And(!running, !device), got == want), "nothing to stop or release")
	}
	nd.Assert(c.closed >= 1, "the connection is closed")
	nd.Assert(!c.bad, "nothing is done on a closed connection")
}
