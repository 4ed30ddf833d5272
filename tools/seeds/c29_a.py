id="c29-stop-failed"; prop="C29"; pkg="borip"
edits=[("borip/client.go", """	if err == nil {
		bor.running = false
	}
	return err
""", """	bor.running = false
	return err
""")]
needs="a STOP the server refuses, followed by Close"
breaks="Close leaves the stream running"
demo="""package borip

import (
	"bufio"
	"bytes"
	"net"
	"testing"
)
"""+open("/verif/tools/seeds/boripdemo.txt").read()+"""
func TestVerifDemo(t *testing.T) {
	b, s := client("GO OK\\nSTOP FAIL\\nSTOP OK\\n")
	b.Go()
	b.Stop()
	b.Close()
	if s.out.String() != "GO\\nSTOP\\nSTOP\\n" || !s.closed {
		t.Fatalf("%q", s.out.String())
	}
}
"""
