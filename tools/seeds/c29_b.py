id="c29-gain-exponent"; prop="C29"; pkg="borip"
edits=[("borip/client.go", """bor.command("GAIN", strconv.FormatFloat(rate, 'f', -1, 64))""", """bor.command("GAIN", strconv.FormatFloat(rate, 'g', -1, 64))""")]
needs="a gain below 0.0001 (or of a million and more)"
breaks="the number is sent with an exponent"
demo="""package borip

import (
	"bufio"
	"bytes"
	"net"
	"testing"
)
"""+open("/verif/tools/seeds/boripdemo.txt").read()+"""
func TestVerifDemo(t *testing.T) {
	b, s := client("GAIN OK\\n")
	b.SetGain(0.00005)
	if s.out.String() != "GAIN 0.00005\\n" {
		t.Fatalf("%q", s.out.String())
	}
}
"""
