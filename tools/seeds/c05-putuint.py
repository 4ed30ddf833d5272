id="c05-nan-canon"; prop="C05"; pkg="dsp"
edits=[("dsp/conversion.go", '''		binary.LittleEndian.PutUint32(output[i*4:], math.Float32bits(s))
''', '''		// Adding zero clears the sign of a zero that was clipped away.
		binary.LittleEndian.PutUint32(output[i*4:], math.Float32bits(float32(s+0)))
''')]
needs="a negative zero sample (or a signalling NaN)"
breaks="s+0 turns negative zero into zero, so its sign does not survive the round trip"
demo='''
package dsp

import (
	"encoding/binary"
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	in := []float32{1, float32(math.Copysign(0, -1)), -2.5}
	out := make([]byte, 12)
	F32Tof32ble(in, out)
	for i, v := range in {
		if g := binary.LittleEndian.Uint32(out[4*i:]); g != math.Float32bits(v) {
			t.Errorf("%g became %08x", v, g)
		}
	}
}
'''
