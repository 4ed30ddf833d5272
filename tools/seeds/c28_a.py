id="c28-bare-antenna"; prop="C28"; pkg="borip"
edits=[("borip/client.go", "	if len(res) < 8 {\n		return \"\", ErrUnexpectedResponse", "	if len(res) < len(\"ANTENNA\") {\n		return \"\", ErrUnexpectedResponse")]
needs="a server that answers ANTENNA with the bare word"
breaks="Antenna panics"
demo="""package borip

import (
	"bufio"
	"bytes"
	"net"
	"testing"
)
"""+open("/verif/tools/seeds/boripdemo.txt").read()+"""
func TestVerifDemo(t *testing.T) {
	b, _ := client("ANTENNA\\n")
	if a, err := b.Antenna(); err == nil {
		t.Fatal(a)
	}
}
"""
