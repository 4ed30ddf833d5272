id="c03-i32-tail"; prop="C03"; pkg="dsp"
edits=[("dsp/conversion.go", '''	// func i32bleToF32(input []byte, output []float32, scale float32) {
	n := len(input) / 4
	if len(output) < n {
		n = len(output)
	}
	for i := range output[:n] {
''', '''	// func i32bleToF32(input []byte, output []float32, scale float32) {
	n := (len(input) + 1) / 4 // whole samples
	if len(output) < n {
		n = len(output)
	}
	for i := range output[:n] {
''')]
needs="an input whose length is 3 more than a multiple of four and an output with room for another sample"
breaks="I32bleToF32 panics on the incomplete sample"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	out := make([]float32, 3)
	I32bleToF32(make([]byte, 7), out, 1)
}
'''
