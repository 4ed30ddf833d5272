id="c33-callsign-scratch"; prop="C33"; pkg="dsp/ax25"
edits=[("dsp/ax25/hdlc.go", '''	i := 0
	for ; i < 6; i++ {
		buf[i] >>= 1
		if buf[i] == 0x20 {
			break
		}
	}
	return Address{Callsign: string(buf[:i]), SSID: int((buf[6] >> 1) & 0xf)}
''', '''	call := callsign[:0]
	for _, b := range buf[:6] {
		if b>>1 == 0x20 {
			break
		}
		call = append(call, b>>1)
	}
	return Address{Callsign: string(call), SSID: int((buf[6] >> 1) & 0xf)}
'''), ("dsp/ax25/hdlc.go", '''func parseAddress(buf []byte) Address {
''', '''// callsign saves an allocation for each address.
var callsign [6]byte

func parseAddress(buf []byte) Address {
''')]
needs="two decoders receiving frames in different goroutines at the same time"
breaks="the decoders unpack callsigns into the same array, so a frame can show characters of a callsign the other decoder is receiving"
demo='''
package ax25

import (
	"sync"
	"testing"
)
'''+open("/verif/tools/seeds/ax25demo.txt").read()+'''
func TestVerifDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for g := range bad {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			c := byte('A' + g)
			f := append(append([]byte(nil), head...), 0x13, 0xf0)
			for i := 0; i < 6; i++ {
				f[i], f[7+i] = c<<1, c<<1
			}
			want := string([]byte{c, c, c, c, c, c})
			for n := 0; n < 20000; n++ {
				s := &tx{d: NewDecoder()}
				s.flag()
				s.send(f)
				s.flag()
				if len(s.got) != 1 || s.got[0].Source.Callsign != want || s.got[0].Destination.Callsign != want {
					bad[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	for _, n := range bad {
		if n != 0 {
			t.Fatal(bad)
		}
	}
}
'''
