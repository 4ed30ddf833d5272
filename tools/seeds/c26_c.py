id="c26-repeater-scratch"; prop="C26"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go",'''		o := 14
		for ;''','''		o := 14
		frame.Repeaters = ax.repeaters[:0]
		for ;'''),("dsp/ax25/hdlc.go",'''		buf = buf[o:]
	}
''','''		ax.repeaters = frame.Repeaters
		buf = buf[o:]
	}
'''),("dsp/ax25/hdlc.go",'''	rxBuf ''','''	repeaters []Address
	rxBuf ''')]
needs="two frames with repeaters received one after the other, the first one kept"
breaks="the repeaters of the first frame become those of the second"
demo='''
package ax25

import "testing"

func TestVerifDemo(t *testing.T) {
	ax := NewDecoder()
	send := func(rep byte) *Frame {
		f := []byte{'A' << 1, 'A' << 1, 'A' << 1, 'A' << 1, 'A' << 1, 'A' << 1, 0xe0,
			'B' << 1, 'B' << 1, 'B' << 1, 'B' << 1, 'B' << 1, 'B' << 1, 0x60,
			rep << 1, 'C' << 1, 'C' << 1, 'C' << 1, 'C' << 1, 'C' << 1, 0x61, 3, 0xf0, 'x', 'y', 'z'}
		crc := uint16(0xffff)
		for _, b := range f {
			for i := uint(0); i < 8; i++ {
				x := (crc ^ uint16(b>>i)) & 1
				crc = crc>>1 ^ 0x8408&-x
			}
		}
		f = append(f, byte(^crc), byte(^crc>>8))
		var got *Frame
		bit := func(b int) {
			if g := ax.Feed(b); g != nil {
				got = g
			}
		}
		flag := func() {
			for _, b := range []int{0, 1, 1, 1, 1, 1, 1, 0} {
				bit(b)
			}
		}
		flag()
		ones := 0
		for _, b := range f {
			for i := uint(0); i < 8; i++ {
				v := int(b >> i & 1)
				bit(v)
				if v == 0 {
					ones = 0
				} else if ones++; ones == 5 {
					bit(0)
					ones = 0
				}
			}
		}
		flag()
		return got
	}
	a := send('Q')
	if a == nil || len(a.Repeaters) != 1 {
		t.Fatal("no frame")
	}
	was := a.Repeaters[0]
	send('Z')
	if a.Repeaters[0] != was {
		t.Fatal(a.Repeaters[0])
	}
}
'''
