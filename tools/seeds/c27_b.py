id="c27-odd-pairs"; prop="C27"; pkg="borip"
edits=[("borip/packet.go", "		rd.bufN = n\n", "		rd.bufN = n - (n & 7)\n")]
needs="a packet with an odd number of samples (header included)"
breaks="the last sample of such packets is lost"
demo='\npackage borip\n\nimport (\n\t"io"\n\t"net"\n\t"testing"\n)\n\ntype pc struct {\n\tnet.PacketConn\n\tps [][]byte\n}\n\nfunc (c *pc) ReadFrom(p []byte) (int, net.Addr, error) {\n\tif len(c.ps) == 0 {\n\t\treturn 0, nil, io.EOF\n\t}\n\tn := copy(p, c.ps[0])\n\tc.ps = c.ps[1:]\n\treturn n, nil, nil\n}\n\nfunc TestVerifDemo(t *testing.T) {\n\tr := NewPacketReader(&pc{ps: [][]byte{{1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0}}}, false)\n\tb := make([]complex128, 2)\n\tn, _ := r.ReadSamples(b)\n\tm, err := r.ReadSamples(b)\n\tif n != 2 || m != 1 || b[0] != complex(5, 6) {\n\t\tt.Fatal(n, m, err, b)\n\t}\n}\n'
