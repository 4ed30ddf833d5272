id="c26-ui-poll"; prop="C26"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
''', '''	if frame.Type == IFrame || controlField == byte(UI) {
''')]
needs="a UI frame with the poll/final bit set"
breaks="UI frames with the P/F bit lose their PID and information"
demo='''
package ax25

import "testing"
'''+open("/verif/tools/seeds/ax25demo.txt").read()+'''
func TestVerifDemo(t *testing.T) {
	s := &tx{d: NewDecoder()}
	s.flag()
	s.send(append(append([]byte(nil), head...), 0x13, 0xf0, 'h', 'i'))
	s.flag()
	if len(s.got) != 1 || string(s.got[0].Info) != "hi" || s.got[0].PID != NoLayer3Protocol {
		t.Fatalf("%+v", s.got)
	}
}
'''
