id="c04-silence"; prop="C04"; pkg="dsp"
edits=[("dsp/conversion.go", '''		output[i*2] = uint8(v & 0xff)
		output[i*2+1] = uint8(v >> 8)
	}
}

// I16ToBLE''', '''		if v != 0 { // buffers start out silent
			output[i*2] = uint8(v & 0xff)
			output[i*2+1] = uint8(v >> 8)
		}
	}
}

// I16ToBLE''')]
needs="an output buffer that is reused, unaligned, and a sample that truncates to zero"
breaks="the sample keeps what the buffer held before"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	out := make([]byte, 17)
	for i := range out {
		out[i] = 7
	}
	for off := 0; off < 2; off++ {
		f32toi16ble([]float32{0.5, 1}, out[off:off+4], 1)
		if out[off] != 0 || out[off+1] != 0 || out[off+2] != 1 || out[off+3] != 0 {
			t.Fatal(off, out)
		}
	}
}
'''
