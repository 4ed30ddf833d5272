id="c28-packet-16bit"; prop="C28"; pkg="borip"
edits=[("borip/client.go", "strconv.ParseInt(deviceParts[5], 10, 32)", "strconv.ParseInt(deviceParts[5], 10, 16)")]
needs="a device with more than 32767 samples per packet"
breaks="such devices are refused"
demo="""package borip

import (
	"bufio"
	"bytes"
	"net"
	"testing"
)
"""+open("/verif/tools/seeds/boripdemo.txt").read()+"""
func TestVerifDemo(t *testing.T) {
	b, _ := client("DEVICE a|1|2|3|4|65536|b|c\\n")
	if d, err := b.SelectDevice("a"); err != nil || d.SamplesPerPacket != 65536 {
		t.Fatal(err)
	}
}
"""
