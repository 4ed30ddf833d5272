id="c32-poll-supervisory"; prop="C32"; pkg="dsp/ax25"
edits=[("dsp/ax25/constants.go", '''	switch t {
	case RR:
''', '''	switch t & 0xd {
	case RR:
''')]
needs="a supervisory code that differs from a known one in a bit that the mask drops"
breaks="codes such as 0x13 print as if they were known"
demo='''
package ax25

import "testing"

func TestVerifDemo(t *testing.T) {
	if s := SupervisoryType(0x13).String(); s != "13" {
		t.Fatal(s)
	}
}
'''
