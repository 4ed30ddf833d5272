id="c17-last-angle"; prop="C17"; pkg="dsp"
edits=[("dsp/biquad.go", '''import "math"

// http''','''import (
	"math"
	"sync"
)

// lastAngle is the angle of the last design, as filters are designed in series.
var lastAngle struct {
	sync.Mutex
	freq, rate float64
	sin, cos   float64
}

func designAngle(freq, rate float64) (sin, cos float64) {
	l := &lastAngle
	l.Lock()
	defer l.Unlock()
	if l.freq != freq || (l.freq == freq && l.rate == 0) {
		l.freq, l.rate = freq, rate
		l.sin, l.cos = math.Sincos(2 * math.Pi * freq / rate)
	}
	return l.sin, l.cos
}

// http'''),("dsp/biquad.go",'''	w0 := 2 * math.Pi * cutoffFreq / sampleRate
	sinW0 := math.Sin(w0)
	cosW0 := math.Cos(w0)
	alpha := sinW0 / (2 * q)
	return &BiQuadFilter{
		B0: (1 - cosW0) / 2,''','''	sinW0, cosW0 := designAngle(cutoffFreq, sampleRate)
	alpha := sinW0 / (2 * q)
	return &BiQuadFilter{
		B0: (1 - cosW0) / 2,''')]
needs="two low-pass filters of one cutoff designed one after the other for different sample rates"
breaks="the second filter has its cutoff where the first one's sample rate puts it"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	NewLowPassBiQuadFilter(48000, 1000, 0.7)
	a := *NewLowPassBiQuadFilter(8000, 1000, 0.7)
	NewLowPassBiQuadFilter(48000, 2000, 0.7)
	if b := *NewLowPassBiQuadFilter(8000, 1000, 0.7); a != b {
		t.Fatal(a, b)
	}
}
'''
