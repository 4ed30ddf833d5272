id="c03-i32-double"; prop="C03"; pkg="dsp"
edits=[("dsp/conversion.go", '''		output[i] = float32(
			int32(
				uint32(input[i*4])|
					(uint32(input[i*4+1])<<8)|
					(uint32(input[i*4+2])<<16)|
					(uint32(input[i*4+3])<<24))) * scale
''', '''		hi := int16(uint16(input[i*4+2]) | uint16(input[i*4+3])<<8)
		lo := uint16(input[i*4]) | uint16(input[i*4+1])<<8
		output[i] = (float32(hi)*65536 + float32(int16(lo))) * scale
''')]
needs="a sample whose low 16 bits have their top bit set"
breaks="the low half is taken as signed, so such samples are 65536 too small"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	out := make([]float32, 1)
	I32bleToF32([]byte{0, 0x80, 1, 0}, out, 1)
	if out[0] != 0x18000 {
		t.Fatal(out)
	}
}
'''
