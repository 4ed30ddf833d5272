id="c24-table"; prop="C24"; pkg="dsp/ax25"
edits=[("dsp/ax25/crc.go", "0x6306, 0x728f, 0x4014, 0x519d, 0x2522, 0x34ab, 0x0630, 0x17b9,", "0x6306, 0x728f, 0x4014, 0x519d, 0x2522, 0x34ab, 0x0630, 0x17b8,")]
needs="a frame that makes the checksum go through table entry 103"
breaks="a table entry is wrong, so some good frames are rejected and some bad ones accepted"
demo='''
package ax25

import "testing"

func TestVerifDemo(t *testing.T) {
	for b := 0; b < 256; b++ {
		crc := uint16(0xffff)
		x := []byte{byte(b), 1, 2}
		for _, v := range x {
			for i := uint(0); i < 8; i++ {
				bit := (crc ^ uint16(v>>i)) & 1
				crc >>= 1
				if bit != 0 {
					crc ^= 0x8408
				}
			}
		}
		crc = ^crc
		if !checkCrcCcitt(append(x, byte(crc), byte(crc>>8))) {
			t.Errorf("byte %d: a correct check sequence is rejected", b)
		}
	}
}
'''
