id="c27-empty-header"; prop="C27"; pkg="borip"
edits=[("borip/packet.go", '''			rd.header.Flags = rd.buf[rd.bufI]
''', '''			if n == packetHeaderSize {
				// no payload
				rd.bufI = n
				return 0, nil
			}
			rd.header.Flags = rd.buf[rd.bufI]
''')]
needs="a packet that consists of its header only, as at the end of a stream"
breaks="Header keeps the header of the packet before"
pk='''
package borip

import (
	"io"
	"net"
	"testing"
)

type pc struct {
	net.PacketConn
	ps [][]byte
}

func (c *pc) ReadFrom(p []byte) (int, net.Addr, error) {
	if len(c.ps) == 0 {
		return 0, nil, io.EOF
	}
	n := copy(p, c.ps[0])
	c.ps = c.ps[1:]
	return n, nil, nil
}
'''
demo=pk+'''
func TestVerifDemo(t *testing.T) {
	r := NewPacketReader(&pc{ps: [][]byte{{FlagStreamStart, 0, 1, 0, 1, 0, 2, 0}, {FlagStremEnd | FlagEmptyPayload, 0, 2, 0}}}, true)
	b := make([]complex128, 8)
	r.ReadSamples(b)
	if n, err := r.ReadSamples(b); n != 0 || err != nil {
		t.Fatal(n, err)
	}
	if h := r.Header(); h.Idx != 2 || h.Flags != FlagStremEnd|FlagEmptyPayload {
		t.Fatalf("%+v", h)
	}
}
'''
