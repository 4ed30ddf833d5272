package dsp

import (
	"math"

	nd "github.com/samuel/go-dsp/verifnd"
)

func init() {
	jobs := func(t int) [][]int {
		var r [][]int
		for k := 0; k < 9; k++ {
			r = append(r, []int{k, 0}, []int{k, 1}, []int{k, 2})
		}
		return r
	}
	nd.Reg("C17", "ends", H_C17_ends, jobs)
	nd.Reg("C17", "centre", H_C17_centre, jobs)
	nd.Reg("C17", "prototype", H_C17_prototype, jobs)
	nd.Reg("C17", "stable", H_C17_stable, jobs)
	nd.Reg("C17", "allpass", H_C17_allpass, func(t int) [][]int { return [][]int{{5, 0}, {5, 1}, {5, 2}} })
}

// A vDesign is a filter with what it was designed from.
type vDesign struct {
	f     *BiQuadFilter
	w0    float64
	q     float64
	gain  float64 // 10^(dBGain/20)
	a     float64 // 10^(dBGain/40)
	tame  bool
	shelf bool
}

// vBiQuad designs filter k for any frequency below half the sample rate, any
// q (slope) and gain.
func vBiQuad(k int) *vDesign {
	rate, freq, q, db := nd.F64("rate"), nd.F64("freq"), nd.F64("q"), nd.F64("db")
	nd.Assume(nd.And(rate > 0, rate <= 1e300))
	nd.Assume(nd.And(freq > 0, freq < rate/2))
	nd.Assume(nd.And(q > 0, q <= 1e300))
	d := &vDesign{w0: 2 * math.Pi * freq / rate, q: q}
	d.tame = nd.And(nd.And(freq >= rate/100, freq <= rate*0.49), nd.And(nd.And(rate >= 1e-6, rate <= 1e12), nd.And(q >= 0.05, q <= 50)))
	if k >= 6 {
		nd.Assume(nd.And(db >= -1e300, db <= 1e300))
		d.tame = nd.And(d.tame, nd.And(db >= -60, db <= 60))
		d.gain = math.Pow(10, db/20)
		d.a = math.Pow(10, db/40)
	}
	// designed after filters that differ in one parameter
	switch nd.P(1) {
	case 0:
		vOtherDesigns(3*rate, freq, q, db)
	case 1:
		vOtherDesigns(rate, freq/2, q, db)
	default:
		vOtherDesigns(rate, freq, 2*q, db+1)
	}
	switch k {
	case 0:
		d.f = NewLowPassBiQuadFilter(rate, freq, q)
	case 1:
		d.f = NewHighPassBiQuadFilter(rate, freq, q)
	case 2:
		d.f = NewBandPassConstantSkirtGainBiQuadFilter(rate, freq, q)
	case 3:
		d.f = NewBandPassConstantPeakGainBiQuadFilter(rate, freq, q)
	case 4:
		d.f = NotchBiQuadFilter(rate, freq, q)
	case 5:
		d.f = AllPassBiQuadFilter(rate, freq, q)
	case 6:
		d.f = PeakingEQBiQuadFilter(rate, freq, q, db)
	case 7:
		nd.Assume(q <= 1)
		d.f = LowShelfBiQuadFilter(rate, freq, q, db)
	default:
		nd.Assume(q <= 1)
		d.f = HighShelfBiQuadFilter(rate, freq, q, db)
	}
	return d
}

// vOtherDesigns designs one filter of each kind.
func vOtherDesigns(rate, freq, q, db float64) {
	NewLowPassBiQuadFilter(rate, freq, q)
	NewHighPassBiQuadFilter(rate, freq, q)
	NewBandPassConstantSkirtGainBiQuadFilter(rate, freq, q)
	NewBandPassConstantPeakGainBiQuadFilter(rate, freq, q)
	NotchBiQuadFilter(rate, freq, q)
	AllPassBiQuadFilter(rate, freq, q)
	PeakingEQBiQuadFilter(rate, freq, q, db)
	LowShelfBiQuadFilter(rate, freq, q, db)
	HighShelfBiQuadFilter(rate, freq, q, db)
}

func (d *vDesign) equal(got, want, scale float64, msg string) {
	nd.Formula(got, want, vScale(d.tame, scale), 1e-6, msg, 0)
}

func (d *vDesign) sizes() (n, m float64) {
	return vAbs(d.f.B0) + vAbs(d.f.B1) + vAbs(d.f.B2), vAbs(d.f.A0) + vAbs(d.f.A1) + vAbs(d.f.A2)
}

// H_C17_ends: the gains at zero frequency and half the sample rate.
func H_C17_ends() {
	k := nd.P(0)
	d := vBiQuad(k)
	f := d.f
	dc, ny := 1.0, 1.0
	switch k {
	case 0:
		ny = 0
	case 1:
		dc = 0
	case 2, 3:
		dc, ny = 0, 0
	case 7:
		dc = d.gain
	case 8:
		ny = d.gain
	}
	n, m := d.sizes()
	d.equal(f.B0+f.B1+f.B2, dc*(f.A0+f.A1+f.A2), n+dc*m, "gain at DC")
	d.equal(f.B0-f.B1+f.B2, ny*(f.A0-f.A1+f.A2), n+ny*m, "gain at Nyquist")
}

// vPower is |b0 + b1 z + b2 z^2|^2 for z = e^(-jw).
func vPower(b0, b1, b2, w float64) float64 {
	c, s := math.Cos(w), math.Sin(w)
	re := b0 + b1*c + b2*(2*c*c-1)
	im := b1*s + b2*2*s*c
	return re*re + im*im
}

// H_C17_centre: the magnitude at the frequency of the design.
func H_C17_centre() {
	k := nd.P(0)
	d := vBiQuad(k)
	f := d.f
	g := 1.0
	switch k {
	case 0, 1, 2:
		g = d.q
	case 4:
		g = 0
	case 6:
		g = d.gain
	case 7, 8:
		return // nothing promised
	}
	n, m := d.sizes()
	d.equal(vPower(f.B0, f.B1, f.B2, d.w0), g*g*vPower(f.A0, f.A1, f.A2, d.w0), n*n+g*g*m*m, "magnitude at the centre")
}

// H_C17_allpass: magnitude 1 everywhere.
func H_C17_allpass() {
	d := vBiQuad(nd.P(0))
	f := d.f
	w := nd.F64("w")
	nd.Assume(nd.And(w >= 0, w <= math.Pi))
	n, m := d.sizes()
	d.equal(vPower(f.B0, f.B1, f.B2, w), vPower(f.A0, f.A1, f.A2, w), n*n+m*m, "magnitude at any frequency")
}

// H_C17_stable: A0 z^2 + A1 z + A2 has both roots inside the unit circle,
// exactly when |A2| < |A0| and |A1| < |A0 + A2|.
func H_C17_stable() {
	d := vBiQuad(nd.P(0))
	f := d.f
	d.holds(f.A2*f.A2 < f.A0*f.A0, "product of the poles")
	d.holds(f.A1*f.A1 < (f.A0+f.A2)*(f.A0+f.A2), "sum of the poles")
}

// H_C17_prototype: the filter is the analogue one of its documentation, with
// s = (1-1/z)/(1+1/z) / tan(w0/2).
func H_C17_prototype() {
	k := nd.P(0)
	d := vBiQuad(k)
	f := d.f
	q1, a := 1/d.q, d.a
	if k >= 7 {
		q1 = math.Sqrt((a+1/a)*(1/d.q-1) + 2) // 1/Q for a shelf slope
	}
	// coefficients of s^2, s and 1
	n, m := [3]float64{}, [3]float64{1, q1, 1}
	switch k {
	case 0:
		n = [3]float64{0, 0, 1}
	case 1:
		n = [3]float64{1, 0, 0}
	case 2:
		n = [3]float64{0, 1, 0}
	case 3:
		n = [3]float64{0, q1, 0}
	case 4:
		n = [3]float64{1, 0, 1}
	case 5:
		n = [3]float64{1, -q1, 1}
	case 6:
		n = [3]float64{1, a * q1, 1}
		m = [3]float64{1, q1 / a, 1}
	case 7:
		r := math.Sqrt(a) * q1
		n = [3]float64{a, a * r, a * a}
		m = [3]float64{a, r, 1}
	default:
		r := math.Sqrt(a) * q1
		n = [3]float64{a * a, a * r, a}
		m = [3]float64{1, r, a}
	}
	c, s := math.Cos(d.w0), math.Sin(d.w0)
	digital := func(x [3]float64) [3]float64 {
		u, v, w := x[0]*(1+c), x[1]*s, x[2]*(1-c)
		return [3]float64{u + v + w, 2 * (w - u), u - v + w}
	}
	wb, wa := digital(n), digital(m)
	b, g := [3]float64{f.B0, f.B1, f.B2}, [3]float64{f.A0, f.A1, f.A2}
	sn, sm := d.sizes()
	size := func(x [3]float64) float64 { return vAbs(x[0]) + vAbs(x[1]) + vAbs(x[2]) }
	for i := 0; i < 3; i++ {
		d.equal(b[i]*wa[0], wb[i]*g[0], sn*size(wa)+size(wb)*sm, "coefficient of the input")
		d.equal(g[i]*wa[0], wa[i]*g[0], sm*size(wa), "coefficient of the output")
	}
	d.holds(g[0]*g[0] > 0, "A0 is not zero")
}

func (d *vDesign) holds(b bool, msg string) { d.equal(nd.Ite64(b, 1, 0), 1, 1, msg) }
