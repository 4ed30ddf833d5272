id="c20-drift"; prop="C20"; pkg="dsp"
edits=[("dsp/sdft.go", '''		s := (xd + sd.s[i]) * sd.e[i]
		sd.s[i] = s
		sum += w * s
	}
	return sum
}

// SDFT32''', '''		s := (xd + sd.s[i]) * sd.e[i]
		if i > 0 && sd.i == 0 {
			s = x * sd.e[i] // a fresh start for the side bins, against drift
		}
		sd.s[i] = s
		sum += w * s
	}
	return sum
}

// SDFT32''')]
needs="a window of at least two bins and more than n samples"
breaks="side bins forget their history every n samples"
demo='''
package dsp

import (
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	f, g := NewSDFT(3, 12, []float64{0, 0, 1}), NewSDFT(4, 12, nil)
	for i := 0; i < 40; i++ {
		x := complex(float64(i*i%7)-3, float64(i*i*i%5)-2)
		a, b := f.Filter(x), g.Filter(x)
		if cmplx.Abs(a-b) > 1e-6 {
			t.Fatalf("sample %d: %v, bin 4 is %v", i, a, b)
		}
	}
}
'''
