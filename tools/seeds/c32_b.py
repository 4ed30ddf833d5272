id="c32-ssid-digits"; prop="C32"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''import (
	"fmt"
)
''', ""), ("dsp/ax25/hdlc.go", '''	return fmt.Sprintf("%s-%d", a.Callsign, a.SSID)
''', '''	if a.SSID < 10 {
		return a.Callsign + "-" + string([]byte{'0' + byte(a.SSID)})
	}
	return a.Callsign + "-" + string([]byte{'0' + byte(a.SSID/10), '0' + byte(a.SSID&7)})
''')]
needs="an SSID whose low digit is not its low three bits: 10, 11, 14 or 15 have other bits"
breaks="the SSID prints as another one"
demo='''
package ax25

import (
	"fmt"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for i := 0; i < 16; i++ {
		if s := (Address{"N0CALL", i}).String(); s != fmt.Sprintf("N0CALL-%d", i) {
			t.Fatal(s)
		}
	}
}
'''
