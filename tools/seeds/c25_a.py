id="c25-repeated-flags"; prop="C25"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''		ax.inFrame = true
		ax.rxBuf = ax.rxBuf[:0]
		ax.rxBits = 0
		ax.rxBitI = 0
		return frame
''', '''		if !ax.inFrame || len(ax.rxBuf) > 0 {
			// Start over, unless nothing has been received since the last flag.
			ax.inFrame = true
			ax.rxBuf = ax.rxBuf[:0]
			ax.rxBits = 0
			ax.rxBitI = 0
		}
		return frame
''')]
needs="two flags sharing a zero (or a few stray bits between flags) before a frame"
breaks="bits of the second flag stay in the shift register, so the frame after repeated flags is misaligned and lost"
demo='''
package ax25

import "testing"
'''+open("/verif/tools/seeds/ax25demo.txt").read()+'''
func TestVerifDemo(t *testing.T) {
	s := &tx{d: NewDecoder()}
	s.flag()
	for _, b := range []int{1, 1, 1, 1, 1, 1, 0} { // a second flag, sharing the zero
		s.bit(b)
	}
	s.send(append(append([]byte(nil), head...), 3, 0xf0, 'h', 'i'))
	s.flag()
	if len(s.got) != 1 {
		t.Fatalf("%d frames", len(s.got))
	}
}
'''
