id="c08-spare-capacity"; prop="C08"; pkg="dsp"
edits=[("dsp/conversion.go", '''	n := len(output) / 4
	if len(input) < n {
		n = len(input)
	}
	for i, s := range input[:n] {
		binary.LittleEndian.PutUint32(output[i*4:], math.Float32bits(s))
	}
''', '''	n := len(output) / 4
	if len(input) < n {
		n = len(input)
	}
	i := 0
	for ; i < n && cap(output)-i*4 >= 8 && cap(input)-i >= 2; i += 2 {
		two := input[i : i+2]
		binary.LittleEndian.PutUint64(output[i*4:i*4+8], uint64(math.Float32bits(two[0]))|uint64(math.Float32bits(two[1]))<<32)
	}
	for ; i < n; i++ {
		binary.LittleEndian.PutUint32(output[i*4:], math.Float32bits(input[i]))
	}
''')]
needs="an odd number of samples, and both slices cut from longer ones"
breaks="four bytes behind the end of the output slice are overwritten"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	in := []float32{1, 2, 3, 4}
	out := make([]byte, 16)
	F32Tof32ble(in[:3], out[:12])
	for _, b := range out[12:] {
		if b != 0 {
			t.Fatal(out)
		}
	}
	one := make([]byte, 4)
	F32Tof32ble(in[:1], one)
	if one[3] != 0x3f {
		t.Fatal(one)
	}
}
'''
