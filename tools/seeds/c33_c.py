id="c33-packet-pool"; prop="C33"; pkg="borip"
edits=[("borip/packet.go", '''		buf:         make([]byte, defaultBufferSize),
''', '''		buf:         packetBuf,
'''), ("borip/packet.go", '''type PacketHeader struct {
''', '''// packetBuf takes one packet of any size.
var packetBuf = make([]byte, defaultBufferSize)

type PacketHeader struct {
''')]
needs="two packet readers, the first of which has samples of its packet left when the second one reads"
breaks="the rest of the first reader's packet is the content of the second reader's packet"
demo='''
package borip

import (
	"net"
	"testing"
	"time"
)

type pc struct{ b byte }

func (p *pc) ReadFrom(b []byte) (int, net.Addr, error) {
	for i := range b[:64] {
		b[i] = p.b
	}
	return 64, nil, nil
}
func (p *pc) WriteTo(b []byte, a net.Addr) (int, error) { return len(b), nil }
func (p *pc) Close() error                              { return nil }
func (p *pc) LocalAddr() net.Addr                       { return nil }
func (p *pc) SetDeadline(t time.Time) error             { return nil }
func (p *pc) SetReadDeadline(t time.Time) error         { return nil }
func (p *pc) SetWriteDeadline(t time.Time) error        { return nil }

func TestVerifDemo(t *testing.T) {
	a, b := NewPacketReader(&pc{1}, true), NewPacketReader(&pc{2}, true)
	s := make([]complex128, 4)
	a.ReadSamples(s)
	b.ReadSamples(make([]complex128, 4))
	if n, err := a.ReadSamples(s); n != 4 || err != nil || s[0] != complex(0x101, 0x101) {
		t.Fatal(n, err, s)
	}
}
'''
