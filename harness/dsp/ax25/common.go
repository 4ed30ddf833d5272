package ax25

import nd "github.com/samuel/go-dsp/verifnd"

var _ = nd.P

func vTier(t, quick, thorough int) int {
	if t == 1 {
		return thorough
	}
	return quick
}

// vTx is a transmitter: it sends bits to a decoder and collects the frames.
type vTx struct {
	ax     *AX25
	hist   byte // the last bits sent
	n      int  // frames received
	last   *Frame
	stuffs int
	other  *AX25 // a receiver of something else
}

func vNewTx() *vTx {
	t := &vTx{ax: NewDecoder(), other: NewDecoder()}
	t.noise(0x7e335a7e0ff1667e, 61)
	return t
}

// noise is what the other receiver hears.
func (t *vTx) noise(bits uint64, n int) {
	for i := 0; i < n; i++ {
		t.other.Feed(int(bits >> uint(i) & 1))
	}
}

func (t *vTx) bit(b int) {
	t.hist = t.hist<<1 | byte(b)
	f := t.ax.Feed(b)
	if f != nil {
		t.n++
		t.last = f
	}
}

func (t *vTx) flag() {
	t.bit(0)
	for i := 0; i < 6; i++ {
		t.bit(1)
	}
	t.bit(0)
	t.noise(0xa7e15b, 21)
}

// flagTail sends a flag whose first zero is the last one of the flag before.
func (t *vTx) flagTail() {
	for i := 0; i < 6; i++ {
		t.bit(1)
	}
	t.bit(0)
}

// data sends bytes, least significant bit first, with bit stuffing.
func (t *vTx) data(bs []byte) {
	for _, b := range bs {
		for i := uint(0); i < 8; i++ {
			t.bit(int(b >> i & 1))
			if t.hist&0x1f == 0x1f {
				t.bit(0)
			}
		}
	}
}

// vCRC is the X.25 frame check sequence, bit by bit.
func vCRC(bs []byte) uint16 {
	crc := uint16(0xffff)
	for _, b := range bs {
		for i := uint(0); i < 8; i++ {
			x := (crc ^ uint16(b>>i)) & 1
			crc = crc>>1 ^ 0x8408&-x
		}
	}
	return ^crc
}

// vValid: the last two bytes are the frame check sequence of the others.
func vValid(bs []byte) bool {
	n := len(bs) - 2
	c := vCRC(bs[:n])
	return nd.And(bs[n] == byte(c), bs[n+1] == byte(c>>8))
}
