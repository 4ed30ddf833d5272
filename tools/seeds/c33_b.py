id="c33-twiddle-cache"; prop="C33"; pkg="dsp"
edits=[("dsp/sdft.go", '''		s.e[i] = cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(n)))
	}
	return s
}

func (sd *SDFT) Filter''', '''		s.e[i] = turn(j, n)
	}
	return s
}

var turns = map[[2]int]complex128{}

// turn is e^(2 pi i j/n).
func turn(j, n int) complex128 {
	e, ok := turns[[2]int{j, n}]
	if !ok {
		e = cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(n)))
		turns[[2]int{j, n}] = e
	}
	return e
}

func (sd *SDFT) Filter''')]
needs="two filters being built in different goroutines at the same time"
breaks="both write the same map without a lock: a data race that ends the program"
demo='''
package dsp

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 2; n < 200; n++ {
				for k := 0; k < n; k++ {
					NewSDFT(k, n, nil)
				}
			}
		}()
	}
	wg.Wait()
}
'''
