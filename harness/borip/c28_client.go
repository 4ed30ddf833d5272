package borip

import (
	"strconv"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	nd.Reg("C28", "anyline", H_C28_anyLine, func(t int) [][]int {
		var r [][]int
		for m := range vMethods {
			for n := 0; n <= vTier(t, 5, 9); n++ {
				r = append(r, []int{m, n})
			}
		}
		return r
	})
	nd.Reg("C28", "cutline", H_C28_cutLine, func(t int) [][]int {
		var r [][]int
		for m := range vMethods {
			for n := 1; n <= len(vMethods[m].word)+4; n++ {
				for k := 0; k <= vTier(t, 2, 3); k++ {
					if t == 1 || (n+k+m)%2 == 0 || n >= len(vMethods[m].word) {
						r = append(r, []int{m, n, k})
					}
				}
			}
		}
		return r
	})
	nd.Reg("C28", "anystatus", H_C28_anyStatus, func(t int) [][]int {
		var r [][]int
		for m := range vMethods {
			for n := 0; n <= vTier(t, 7, 11); n++ {
				r = append(r, []int{m, n})
			}
		}
		return r
	})
	nd.Reg("C28", "getters", H_C28_getters, func(t int) [][]int {
		var r [][]int
		for n := 0; n <= vTier(t, 10, 24); n++ {
			r = append(r, []int{n, n % 4, 0})
			if n > 0 {
				r = append(r, []int{n, n % 4, 1})
			}
		}
		return r
	})
	nd.Reg("C28", "frequency", H_C28_frequency, func(t int) [][]int {
		var r [][]int
		for k := 0; k <= 5; k++ {
			for n := 1; n <= vTier(t, 4, 8); n++ {
				r = append(r, []int{k, n})
			}
		}
		return r
	})
	nd.Reg("C28", "rate", H_C28_rate, func(t int) [][]int {
		var r [][]int
		for n := 1; n <= vTier(t, 10, 20); n++ {
			r = append(r, []int{n, 0, n % 5}, []int{n, 2, (n + 2) % 5})
		}
		return r
	})
	nd.Reg("C28", "device", H_C28_device, func(t int) [][]int {
		var r [][]int
		for k := 0; k < vTier(t, 12, 40); k++ {
			r = append(r, []int{k % 4, k % 2, k % 3, 1 + k*3%5, k * 5 % 7})
		}
		return r
	})
	nd.Reg("C28", "fewfields", H_C28_fewFields, func(t int) [][]int {
		var r [][]int
		for k := 1; k <= 6; k++ {
			r = append(r, []int{k, 1}, []int{k, 3})
		}
		return r
	})
	nd.Reg("C28", "badfield", H_C28_badField, func(t int) [][]int {
		var r [][]int
		for k := 1; k <= 5; k++ {
			for n := 0; n <= vTier(t, 4, 8); n++ {
				r = append(r, []int{k, n})
			}
		}
		return r
	})
	nd.Reg("C28", "nodevice", H_C28_noDevice, func(t int) [][]int {
		var r [][]int
		for n := 0; n <= vTier(t, 8, 20); n++ {
			r = append(r, []int{n, n % 2})
		}
		return r
	})
	nd.Reg("C28", "lost", H_C28_lost, func(t int) [][]int {
		var r [][]int
		for m := range vMethods {
			r = append(r, []int{m, m % 6, m % 2})
		}
		return r
	})
}

type vMethod struct {
	word   string // of the command and its response
	status bool   // whether the response carries a status
	call   func(b *BorIP) error
}

var vMethods = []vMethod{
	{"DEVICE", false, vmDevice}, {"FREQ", true, vmSetFreq}, {"FREQ", false, vmFreq}, {"ANTENNA", true, vmSetAnt},
	{"ANTENNA", false, vmAnt}, {"RATE", true, vmSetRate}, {"RATE", false, vmRate}, {"GAIN", true, vmSetGain},
	{"GAIN", false, vmGain}, {"DEST", true, vmSetDest}, {"DEST", false, vmDest}, {"HEADER", true, vmSetHeader},
	{"HEADER", false, vmHeader}, {"GO", true, vmGo}, {"STOP", true, vmStop},
}

func vmDevice(b *BorIP) error    { _, err := b.SelectDevice("rtl"); return err }
func vmSetFreq(b *BorIP) error   { _, _, _, _, err := b.SetFrequency(1e8); return err }
func vmFreq(b *BorIP) error      { _, err := b.Frequency(); return err }
func vmSetAnt(b *BorIP) error    { return b.SetAntenna("A") }
func vmAnt(b *BorIP) error       { _, err := b.Antenna(); return err }
func vmSetRate(b *BorIP) error   { _, err := b.SetRate(1e6); return err }
func vmRate(b *BorIP) error      { _, err := b.Rate(); return err }
func vmSetGain(b *BorIP) error   { return b.SetGain(3) }
func vmGain(b *BorIP) error      { _, err := b.Gain(); return err }
func vmSetDest(b *BorIP) error   { _, err := b.SetDestination("-"); return err }
func vmDest(b *BorIP) error      { _, err := b.Destination(); return err }
func vmSetHeader(b *BorIP) error { return b.SetHeaderEnabled(true) }
func vmHeader(b *BorIP) error    { _, err := b.HeaderEnabled(); return err }
func vmGo(b *BorIP) error        { return b.Go() }
func vmStop(b *BorIP) error      { return b.Stop() }

// H_C28_anyLine: no line makes a method panic.
func H_C28_anyLine() {
	m := vMethods[nd.P(0)]
	line := nd.Bytes("line", nd.P(1), 0)
	for i := range line {
		nd.Assume(line[i] != '\n')
	}
	b, _ := vClient(append(append([]byte(nil), line...), '\n'))
	nd.Assert(!nd.Try(func() { m.call(b) }), "no panic")
}

// H_C28_cutLine: the beginning of a good response followed by anything.
func H_C28_cutLine() {
	m := vMethods[nd.P(0)]
	tail := nd.Bytes("tail", nd.P(2), 0)
	for i := range tail {
		nd.Assume(tail[i] != '\n')
	}
	line := append([]byte((m.word + " OK ")[:nd.P(1)]), tail...)
	b, _ := vClient(append(line, '\n'))
	nd.Assert(!nd.Try(func() { m.call(b) }), "no panic")
}

// H_C28_anyStatus: after the command word comes a status; anything but OK is
// an error, OK with what the method needs is not.
func H_C28_anyStatus() {
	m := vMethods[nd.P(0)]
	n := nd.P(1)
	if !m.status {
		return
	}
	rest := nd.Bytes("rest", n, 0)
	for i := range rest {
		nd.Assume(rest[i] >= ' ' && rest[i] < 0x7f)
	}
	if n > 0 {
		nd.Assume(rest[n-1] != ' ')
	}
	if n > 4 {
		// at most two spaces
		k := int64(0)
		for i := range rest {
			k += nd.IteI(rest[i] == ' ', 1, 0)
		}
		nd.Assume(k <= 2)
	}
	line := m.word
	if n > 0 {
		line += " " + string(rest)
	}
	b, _ := vClient([]byte(line + "\r\n"))
	ok := false
	if n >= 2 {
		ok = nd.And(rest[0] == 'O', rest[1] == 'K')
		if n > 2 {
			ok = nd.And(ok, rest[2] == ' ')
		}
	}
	err := error(nil)
	nd.Assert(!nd.Try(func() { err = m.call(b) }), "no panic")
	nd.Assert(nd.Imp(!ok, err != nil), "a status other than OK is an error")
	if m.word != "RATE" && m.word != "DEST" {
		nd.Assert(nd.Imp(ok, err == nil), "OK is no error")
	}
}

// H_C28_getters: a getter returns what follows the command word.
func H_C28_getters() {
	n := nd.P(0)
	end := []string{"\n", "\r\n", " \n", " \t\r\n"}[nd.P(1)]
	var text string
	if nd.P(2) == 1 {
		text, _ = vNum("t", n, nd.P(1))
	} else {
		text = vText("t", n)
	}
	x, perr := strconv.ParseFloat(text, 64)
	for k := 0; k < 3; k++ {
		b, _ := vClient([]byte([]string{"FREQ ", "RATE ", "GAIN "}[k] + text + end))
		var g float64
		var err error
		switch k {
		case 0:
			g, err = b.Frequency()
		case 1:
			g, err = b.Rate()
		case 2:
			g, err = b.Gain()
		}
		nd.Assert((err == nil) == (perr == nil), "error exactly when there is no number")
		if perr == nil {
			nd.Eq64(g, x, "number", k)
		}
	}
	if n > 0 {
		b, _ := vClient([]byte("ANTENNA " + text + end))
		s, err := b.Antenna()
		vNoErr(err, "antenna")
		nd.Assert(s == text, "antenna")
		b, _ = vClient([]byte("DEST " + text + end))
		s, err = b.Destination()
		vNoErr(err, "destination")
		nd.Assert(s == text, "destination")
		b, _ = vClient([]byte("DEST OK " + text + end))
		s, err = b.SetDestination("x")
		vNoErr(err, "destination set")
		nd.Assert(s == text, "destination set")
	}
	b, _ := vClient([]byte("HEADER " + text + end))
	h, err := b.HeaderEnabled()
	on, off := text == "ON", text == "OFF"
	nd.Assert((err == nil) == nd.Or(on, off), "header state")
	nd.Assert(h == on, "header state")
}

// H_C28_frequency: the numbers of a tuning result, in order, as many as there are.
func H_C28_frequency() {
	k, n := nd.P(0), nd.P(1)
	line := "FREQ OK"
	var want [5]float64
	for i := 0; i < k; i++ {
		s, v := vNum("f", 1+(n+i)%(n+1), (n+i)%4)
		want[i] = v
		line += " " + s
	}
	b, _ := vClient([]byte(line + "\n"))
	a, c, d, e, err := b.SetFrequency(1e8)
	vNoErr(err, "tuned")
	for i, g := range []float64{a, c, d, e} {
		nd.Eq64(g, want[i], "tuning result", i)
	}
}

// H_C28_rate: the actual rate, or an error.
func H_C28_rate() {
	n, more := nd.P(0), nd.P(1)
	var s string
	if nd.P(2) == 4 {
		s = vText("r", n)
	} else {
		s, _ = vNum("r", n, nd.P(2))
	}
	v, perr := strconv.ParseFloat(s, 64)
	line := "RATE OK " + s
	if more > 0 {
		line += " " + vText("m", more)
	}
	b, _ := vClient([]byte(line + "\n"))
	g, err := b.SetRate(2e6)
	nd.Assert((err == nil) == (perr == nil), "error exactly when there is no number")
	if perr == nil {
		nd.Eq64(g, v, "rate", 0)
	}
}

// vNum is the text of a number: digits, after a sign when shape has bit 0 set
// and with a point when it has bit 1 set.
func vNum(name string, n, shape int) (string, float64) {
	b := nd.Bytes(name, n+shape&1+shape>>1&1, 0)
	for i := range b {
		switch {
		case i == 0 && shape&1 != 0:
			nd.Assume(nd.Or(b[i] == '-', b[i] == '+'))
		case i == len(b)/2 && shape&2 != 0:
			nd.Assume(b[i] == '.')
		default:
			nd.Assume(b[i] >= '0' && b[i] <= '9')
		}
	}
	s := string(b)
	v, err := strconv.ParseFloat(s, 64)
	nd.Assume(err == nil)
	return s, v
}

// H_C28_device: the fields of a device.
func H_C28_device() {
	ants, serial, spaces, n, extra := nd.P(0), nd.P(1) == 1, nd.P(2), nd.P(3), nd.P(4)
	name := vText("name", n)
	nd.Assume(name[0] != '-')
	for i := 0; i < spaces; i++ {
		name += " " + vText("name", extra+1)
	}
	var num [4]string
	var val [4]float64
	line := "DEVICE " + name
	for i := range num {
		num[i], val[i] = vNum("num", 1+(n+i*extra)%5, (n+i)%4)
		line += "|" + num[i]
	}
	spp := 0
	d := nd.Bytes("spp", 1+extra, 0)
	for i := range d {
		nd.Assume(d[i] >= '0' && d[i] <= '9')
		spp = spp*10 + int(d[i]-'0')
	}
	line += "|" + string(d) + "|"
	var ant []string
	for i := 0; i <= ants; i++ {
		if i > 0 {
			line += ","
		}
		a := vText("ant", (n+i)%4+1)
		ant = append(ant, a)
		line += a
	}
	ser := ""
	if serial {
		ser = vText("serial", extra+1)
		line += "|" + ser
	}
	b, _ := vClient([]byte(line + "\r\n"))
	g, err := b.SelectDevice("x")
	vNoErr(err, "device")
	nd.Assert(g != nil, "device")
	if g == nil {
		return
	}
	nd.Assert(g == b.Device(), "the device is selected")
	nd.Assert(g.Name == name, "name")
	nd.Assert(g.Serial == ser, "serial number")
	for i, v := range []float64{g.MinGain, g.MaxGain, g.GainStep, g.FPGAFreq} {
		nd.Eq64(v, val[i], "number", i)
	}
	nd.EqI(int64(g.SamplesPerPacket), int64(spp), "samples per packet", 0)
	nd.EqI(int64(len(g.ValidAntennas)), int64(len(ant)), "antennas", 0)
	if len(g.ValidAntennas) == len(ant) {
		for i, a := range ant {
			nd.Assert(g.ValidAntennas[i] == a, "antenna")
		}
	}
}

// H_C28_fewFields: with fields missing, an error and no device.
func H_C28_fewFields() {
	k, n := nd.P(0), nd.P(1)
	line := "DEVICE "
	for i := 0; i < k; i++ {
		s := vText("s", n)
		if i == 0 {
			nd.Assume(s[0] != '-')
		} else {
			line += "|"
		}
		line += s
	}
	b, _ := vClient([]byte(line + "\n"))
	g, err := b.SelectDevice("x")
	vErr(err, "fields missing")
	nd.Assert(g == nil && b.Device() == nil, "no device")
}

// H_C28_badField: a field that is not a number is an error.
func H_C28_badField() {
	k, n := nd.P(0), nd.P(1)
	f := []string{"name", "-5", "30.5", "1", "3200000", "16256", "(Default)", "serial"}
	s := vText("s", n)
	if k == 5 {
		_, err := strconv.ParseInt(s, 10, 32)
		nd.Assume(err != nil)
	} else {
		_, err := strconv.ParseFloat(s, 64)
		nd.Assume(err != nil)
	}
	f[k] = s
	line := "DEVICE "
	for i, x := range f {
		if i > 0 {
			line += "|"
		}
		line += x
	}
	b, _ := vClient([]byte(line + "\n"))
	g, err := b.SelectDevice("x")
	vErr(err, "not a number")
	nd.Assert(g == nil && b.Device() == nil, "no device")
}

// H_C28_noDevice: "-" deselects, "- text" is an error.
func H_C28_noDevice() {
	n, sel := nd.P(0), nd.P(1) == 1
	line := "DEVICE -"
	if n > 0 {
		line += " " + vText("m", n)
	}
	b, _ := vClient([]byte("DEVICE a|1|2|3|4|5|b|c\n" + line + "\n"))
	if sel {
		_, err := b.SelectDevice("a")
		vNoErr(err, "selected")
		nd.Assert(b.Device() != nil, "selected")
	} else {
		b, _ = vClient([]byte(line + "\n"))
	}
	g, err := b.SelectDevice("!")
	nd.Assert(g == nil, "no device")
	if n == 0 {
		vNoErr(err, "deselected")
		nd.Assert(b.Device() == nil, "deselected")
	} else {
		vErr(err, "refused")
	}
}

// H_C28_lost: when the connection ends, an error.
func H_C28_lost() {
	m := vMethods[nd.P(0)]
	n := nd.P(1)
	line := nd.Bytes("line", n, 0)
	for i := range line {
		nd.Assume(line[i] != '\n')
	}
	b, c := vClient(line)
	c.failWrite = nd.P(2) == 1
	err := error(nil)
	nd.Assert(!nd.Try(func() { err = m.call(b) }), "no panic")
	vErr(err, "a lost connection is reported")
}
