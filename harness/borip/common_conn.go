package borip

import (
	"bufio"
	"errors"
	"io"
	"net"
	"strings"
	"time"

	nd "github.com/samuel/go-dsp/verifnd"
)

var _ = nd.P

var errConn = errors.New("connection lost")

func vTier(t, quick, thorough int) int {
	if t == 1 {
		return thorough
	}
	return quick
}

// vConn is a server: it answers with the bytes of in, at most chunk at a time.
type vConn struct {
	in, out   []byte
	pos       int
	chunk     int
	closed    int
	firstRead int // bytes received before the first read, -1 before
	failWrite bool
	bad       bool // something happened on a closed connection
}

func (c *vConn) Read(p []byte) (int, error) {
	c.bad = c.bad || c.closed > 0
	if c.firstRead < 0 {
		c.firstRead = len(c.out)
	}
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := len(c.in) - c.pos
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	n = copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

func (c *vConn) Write(p []byte) (int, error) {
	c.bad = c.bad || c.closed > 0
	if c.failWrite {
		return 0, errConn
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *vConn) Close() error                     { c.closed++; return nil }
func (c *vConn) LocalAddr() net.Addr              { return nil }
func (c *vConn) RemoteAddr() net.Addr             { return nil }
func (c *vConn) SetDeadline(time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(time.Time) error { return nil }

// vClient is a connected client whose server answers with in.
func vClient(in []byte) (*BorIP, *vConn) {
	c := &vConn{in: in, firstRead: -1}
	return vNewBorIP(c, bufio.NewReader(c), bufio.NewWriter(c)), c
}

// vText is a text of n characters other than spaces and separators.
func vText(name string, n int) string {
	b := nd.Bytes(name, n, 0)
	for i := range b {
		nd.Assume(b[i] > ' ' && b[i] < 0x7f && b[i] != '|' && b[i] != ',')
	}
	return string(b)
}

func vErr(err error, msg string)   { nd.Assert(err != nil, msg) }
func vNoErr(err error, msg string) { nd.Assert(err == nil, msg) }

// vPackets is a packet connection.
type vPackets struct {
	ps    [][]byte
	i     int
	fails int // a read that fails, counted down
	reads int
}

func (c *vPackets) ReadFrom(p []byte) (int, net.Addr, error) {
	c.reads++
	if c.fails > 0 {
		c.fails--
		if c.fails == 0 {
			return 0, nil, errConn
		}
	}
	if c.i >= len(c.ps) {
		return 0, nil, io.EOF
	}
	n := copy(p, c.ps[c.i])
	c.i++
	return n, nil, nil
}

func (c *vPackets) WriteTo(p []byte, a net.Addr) (int, error) { return len(p), nil }
func (c *vPackets) Close() error                              { return nil }
func (c *vPackets) LocalAddr() net.Addr                       { return nil }
func (c *vPackets) SetDeadline(time.Time) error               { return nil }
func (c *vPackets) SetReadDeadline(time.Time) error           { return nil }
func (c *vPackets) SetWriteDeadline(time.Time) error          { return nil }

var _ = strings.Join
