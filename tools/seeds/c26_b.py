id="c26-source-cbit"; prop="C26"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''		if buf[6]&0x80 != buf[13]&0x80 {
''', '''		if len(buf) > 15 && buf[6]&0x80 != buf[13]&0x80 {
''')]
needs="a version 2 frame that ends with its control field (no PID or information) and has no repeaters"
breaks="such supervisory and unnumbered frames are reported as version 1 responses"
demo='''
package ax25

import "testing"
'''+open("/verif/tools/seeds/ax25demo.txt").read()+'''
func TestVerifDemo(t *testing.T) {
	s := &tx{d: NewDecoder()}
	s.flag()
	h := append([]byte(nil), head...)
	h[6], h[13] = 0xe0, 0x61
	s.send(append(h, 0x11))
	s.flag()
	if len(s.got) != 1 || s.got[0].V1 || !s.got[0].Command || s.got[0].Type != SFrame {
		t.Fatalf("%+v", s.got)
	}
}
'''
