id="c25-513"; prop="C25"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''		if len(ax.rxBuf) >= ax.maxBufferSize {
			ax.inFrame = false
			// TODO: return an error?
			return nil
		}
''', '''		if len(ax.rxBuf) >= ax.maxBufferSize {
			// TODO: return an error?
			ax.rxBuf = ax.rxBuf[:0]
			ax.rxBits = 0
			ax.rxBitI = 0
			return nil
		}
''')]
needs="a transmission of more than 512 bytes whose tail after the first 513 bytes is itself a frame with a correct check sequence"
breaks="after an overlong frame the decoder keeps receiving without a flag, so the tail of the overlong frame can be returned as a frame"
demo='''
package ax25

import "testing"
'''+open("/verif/tools/seeds/ax25demo.txt").read()+'''
func TestVerifDemo(t *testing.T) {
	s := &tx{d: NewDecoder()}
	s.flag()
	// 513 bytes (511 and a check sequence), then a frame without a flag between
	s.send(make([]byte, 511))
	s.send(append(append([]byte(nil), head...), 3, 0xf0, 'h', 'i'))
	s.flag()
	if len(s.got) != 0 {
		t.Fatalf("the tail of an overlong frame was returned: %v", s.got[0])
	}
}
'''
