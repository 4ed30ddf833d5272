id="c20-window-alias"; prop="C20"; pkg="dsp"
edits=[("dsp/sdft.go", '''type SDFT struct {
	i int
	w []complex128
''','''type SDFT struct {
	i int
	w []float64
'''),("dsp/sdft.go",'''	var win []complex128
	if len(window) == 0 {
		win = []complex128{complex(1, 0)}
	} else {
		win = make([]complex128, len(window))
		for i, w := range window {
			win[i] = complex(w, 0)
		}
	}
	s := &SDFT{''','''	win := window
	if len(win) == 0 {
		win = []float64{1}
	}
	s := &SDFT{'''),("dsp/sdft.go",'''		sd.s[i] = s
		sum += w * s
	}
	return sum
}

// SDFT32 is''','''		sd.s[i] = s
		sum += complex(w*real(s), w*imag(s))
	}
	return sum
}

// SDFT32 is''')]
needs="a caller that reuses its window's slice after making the filter"
breaks="the filter weights its bins with what the caller wrote afterwards"
demo='''
package dsp

import "testing"

func TestVerifDemo(t *testing.T) {
	w := []float64{-0.25, 0.5, -0.25}
	a := NewSDFT(2, 8, w)
	b := NewSDFT(2, 8, w)
	x := a.Filter(1)
	w[1] = 7
	if y := b.Filter(1); y != x {
		t.Fatal(x, y)
	}
}
'''
