id="c20-twiddle-cache"; prop="C20"; pkg="dsp"
edits=[("dsp/sdft.go", '''	"math/cmplx"
)
''','''	"math/cmplx"
	"sync"
)

var (
	sdftMu   sync.Mutex
	sdftRing = map[int][]complex128{} // by bin
)

// sdftTwiddles gives the rotations of the n bins from j on.
func sdftTwiddles(j, n, size int) []complex128 {
	sdftMu.Lock()
	defer sdftMu.Unlock()
	if e := sdftRing[j]; len(e) == n {
		return e
	}
	e := make([]complex128, n)
	for i := range e {
		e[i] = cmplx.Exp(complex(0, 2*math.Pi*float64((j+i+size)%size)/float64(size)))
	}
	sdftRing[j] = e
	return e
}
'''),("dsp/sdft.go",'''		e: make([]complex128, len(win)),
		s: make([]complex128, len(win)),
	}
	for i := 0; i < len(win); i++ {
		j := k - len(win)/2 + i
		if j < 0 {
			j += n
		} else if j >= n {
			j -= n
		}
		s.e[i] = cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(n)))
	}
	return s
''','''		e: sdftTwiddles(k-len(win)/2, len(win), n),
		s: make([]complex128, len(win)),
	}
	return s
''')]
needs="two filters of one bin and window length and different sizes in a program"
breaks="the second filter turns with the rotations of the first one's size"
demo='''
package dsp

import (
	"math/cmplx"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	NewSDFT(1, 16, nil)
	f := NewSDFT(1, 8, nil)
	var y complex128
	for i := 0; i < 8; i++ {
		y = f.Filter(1)
	}
	if cmplx.Abs(y) > 1e-9 {
		t.Fatal(y)
	}
}
'''
