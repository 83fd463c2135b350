// C19: filters realize the response they are named for.
package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C19",
		Subs: []Sub{
			{Name: "biquad", Quick: 25000, Thorough: 200000, Fn: biquad,
				Rule: "every design and direct coefficients, with frequency, Q and gain changed between blocks, several channels interleaved and resets, sample by sample against the published design equations run in double precision; non-trivial: a design changed while the filter runs or 2 channels"},
			{Name: "response", Quick: 40000, Thorough: 200000, Fn: response,
				Rule: "the measured steady-state gain at drawn frequencies and at 0 Hz, the corner and near Nyquist, against what each filter kind promises; non-trivial: always"},
			{Name: "svf", Quick: 14000, Thorough: 200000, Fn: svf,
				Rule: "state-variable filter outputs, mixes and morphs with frequency and Q changed between blocks and channels interleaved, against the trapezoidal integrator equations in double precision; non-trivial: 2 channels or changed settings"},
			{Name: "designs", Quick: 170000, Thorough: 850000, Fn: designs,
				Rule: "the start of the impulse response, which holds every coefficient, for any corner from a millionth of the sample rate to Nyquist, Q from 0.01 to 1000 and gain within 60 dB, set once or after other designs; non-trivial: a corner below 0.3% of the sample rate, an extreme Q or more than 18 dB"},
			{Name: "dcblock", Quick: 2500, Thorough: 100000, Fn: dcblock,
				Rule: "DC blockers over channels, cutoffs and resets against the first-order recurrence in double precision, and a constant input decays to nothing; non-trivial: an offset in the input"},
		},
		Assumptions: []string{"long runs: filter frequencies between 0.3% and 49% of the sample rate, Q from 0.3 to 12, gains within 18 dB (single precision limits the coefficients below that); first samples: any setting"},
	})
}

type coef struct{ b0, b1, b2, a1, a2 float64 }

var kinds = []string{"lowpass", "highpass", "bandpass", "notch", "allpass", "peaking", "lowshelf", "highshelf"}

// design is the audio EQ cookbook, written from H(s) through the bilinear transform.
func design(kind string, sr, f, q, db float64) coef {
	A := math.Pow(10, db/40)
	// H(s) = (B2 s^2 + B1 s + B0)/(A2 s^2 + A1 s + A0), s normalized to the corner
	var B, D [3]float64 // index = power of s
	switch kind {
	case "lowpass":
		B, D = [3]float64{1, 0, 0}, [3]float64{1, 1 / q, 1}
	case "highpass":
		B, D = [3]float64{0, 0, 1}, [3]float64{1, 1 / q, 1}
	case "bandpass":
		B, D = [3]float64{0, 1 / q, 0}, [3]float64{1, 1 / q, 1}
	case "notch":
		B, D = [3]float64{1, 0, 1}, [3]float64{1, 1 / q, 1}
	case "allpass":
		B, D = [3]float64{1, -1 / q, 1}, [3]float64{1, 1 / q, 1}
	case "peaking":
		B, D = [3]float64{1, A / q, 1}, [3]float64{1, 1 / (A * q), 1}
	case "lowshelf":
		s := math.Sqrt(A) / q
		B, D = [3]float64{A * A, A * s, A}, [3]float64{1, s, A}
	case "highshelf":
		s := math.Sqrt(A) / q
		B, D = [3]float64{A, A * s, A * A}, [3]float64{A, s, 1}
	}
	k := 1 / math.Tan(math.Pi*f/sr) // s = k (1-z)/(1+z)
	bil := func(c [3]float64) (x0, x1, x2 float64) {
		return c[2]*k*k + c[1]*k + c[0], 2 * (c[0] - c[2]*k*k), c[2]*k*k - c[1]*k + c[0]
	}
	b0, b1, b2 := bil(B)
	a0, a1, a2 := bil(D)
	return coef{b0 / a0, b1 / a0, b2 / a0, a1 / a0, a2 / a0}
}

func apply(b *filter.Biquad, kind string, sr, f, q, db float64) {
	switch kind {
	case "lowpass":
		b.SetLowpass(sr, f, q)
	case "highpass":
		b.SetHighpass(sr, f, q)
	case "bandpass":
		b.SetBandpass(sr, f, q)
	case "notch":
		b.SetNotch(sr, f, q)
	case "allpass":
		b.SetAllpass(sr, f, q)
	case "peaking":
		b.SetPeakingEQ(sr, f, q, db)
	case "lowshelf":
		b.SetLowShelf(sr, f, q, db)
	case "highshelf":
		b.SetHighShelf(sr, f, q, db)
	}
}

func genFQ(t *T, sr float64) (f, q, db float64) {
	f = sr * t.LogU(0.003, 0.49, "f")
	q = Pick(t, "q", math.Sqrt2/2, 1, 0.5, t.LogU(0.3, 12, "qv"))
	db = Pick(t, "db", 0, 6, -6, t.U(-18, 18, "dbv"))
	return
}

// state is a direct form I filter in double precision, history kept across changes.
type state struct{ x1, x2, y1, y2 float64 }

func (s *state) step(c coef, x float64) float64 {
	y := c.b0*x + c.b1*s.x1 + c.b2*s.x2 - c.a1*s.y1 - c.a2*s.y2
	s.x2, s.x1, s.y2, s.y1 = s.x1, x, s.y1, y
	return y
}

// cond estimates how much single-precision rounding is amplified by a filter:
// its coefficients move by 1e-7, which moves the poles.
func cond(c coef) float64 {
	// distance of the poles from the unit circle and from each other on the real axis near 1 and -1
	d := math.Min(math.Abs(1+c.a1+c.a2), math.Abs(1-c.a1+c.a2))
	return 1 / math.Max(1e-9, math.Min(d, 1-math.Sqrt(math.Max(0, math.Min(1, math.Abs(c.a2))))))
}

func biquad(t *T) {
	nc := t.Int(1, 3, "channels")
	b := filter.NewBiquad(nc)
	st := make([]state, nc)
	sr := t.Rate("sr")
	var c coef
	var made bool
	var kind0 string
	var f0, q0, db0 float64
	amp, worst, peak := 1.0, 1.0, 1.0
	for blk := t.Size(1, 6, 36, "blocks"); blk > 0; blk-- {
		if c == (coef{}) || t.Bool("change") {
			if t.Int(0, 7, "direct") == 0 {
				// any stable filter, not normalized
				r, w := t.U(0, 0.97, "r"), t.U(0, math.Pi, "w")
				a0 := Pick(t, "a0", 1.0, 2, -3, 0.5)
				c = coef{t.U(-2, 2, "b0"), t.U(-2, 2, "b1"), t.U(-2, 2, "b2"), -2 * r * math.Cos(w), r * r}
				b.SetCoefficients(float32(c.b0*a0), float32(c.b1*a0), float32(c.b2*a0), float32(a0), float32(c.a1*a0), float32(c.a2*a0))
				t.Desc(" direct")
			} else {
				kind := kinds[t.Int(0, len(kinds)-1, "kind")]
				if made && t.Int(0, 4, "new rate") == 0 {
					sr = t.Rate("sr")
				}
				f, q, db := genFQ(t, sr)
				if made && f0 < 0.49*sr && f0 > 0.003*sr {
					f, q, db = t.Keep(f, f0, "f"), t.Keep(q, q0, "q"), t.Keep(db, db0, "db")
					if t.Bool("same kind") {
						kind = kind0
					}
				}
				made, kind0, f0, q0, db0 = true, kind, f, q, db
				apply(b, kind, sr, f, q, db)
				c = design(kind, sr, f, q, db)
				t.Desc(" %s f=%.4g/%v q=%.3g %.3gdB", kind, f, sr, q, db)
			}
			worst = math.Max(worst, cond(c))
			t.Nontrivial(st[0] != state{})
		}
		t.Nontrivial(nc > 1)
		n := t.Size(1, 200, 20000, "n")
		run := func(ch int, x, buf []float32) {
			for i := range x {
				want := st[ch].step(c, float64(x[i]))
				peak = math.Max(peak, math.Max(math.Abs(want), math.Abs(float64(x[i]))))
				tol := peak * (2e-5 + 6e-6*worst) // "designs" is the tight one
				if d := math.Abs(float64(buf[i]) - want); !(d <= tol) {
					t.Fatalf("channel %d sample %d is %v, expected %v (difference %.3g, tolerance %.3g)", ch, i, buf[i], want, d, tol)
				}
			}
		}
		if t.Bool("multi") {
			extra := t.Int(-1, 1, "extra")
			bufs := make([][]float32, 0)
			var xs [][]float32
			for ch := 0; ch < nc+extra; ch++ {
				x := t.Signal(n, amp, "x")
				xs = append(xs, x)
				bufs = append(bufs, Clone(x))
			}
			b.ProcessMulti(bufs)
			for ch := range bufs {
				if ch < nc {
					run(ch, xs[ch], bufs[ch])
				} else if i, ok := SameBits(xs[ch], bufs[ch]); !ok {
					t.Fatalf("a channel beyond those of the filter is changed at sample %d", i)
				}
			}
		} else {
			ch := t.Int(0, nc-1, "ch")
			x := t.Signal(n, amp, "x")
			buf := Clone(x)
			b.Process(buf, ch)
			run(ch, x, buf)
		}
		if t.Int(0, 7, "reset") == 0 {
			b.Reset()
			for i := range st {
				st[i] = state{}
			}
			t.Desc(" reset")
		}
	}
}

// gainAt measures the steady-state gain and phase of a running filter.
func gainAt(process func([]float32), w float64, settle, n int) complex128 {
	buf := make([]float32, settle+n)
	for i := range buf {
		buf[i] = float32(math.Cos(w * float64(i)))
	}
	process(buf)
	// least squares fit of a cos + b sin over the tail
	var cc, ss, cs, yc, ys float64
	for i := settle; i < len(buf); i++ {
		c, s, y := math.Cos(w*float64(i)), math.Sin(w*float64(i)), float64(buf[i])
		cc, ss, cs, yc, ys = cc+c*c, ss+s*s, cs+c*s, yc+y*c, ys+y*s
	}
	if ss < 1e-9 { // 0 Hz or Nyquist
		return complex(yc/cc, 0)
	}
	det := cc*ss - cs*cs
	a, bb := (yc*ss-ys*cs)/det, (ys*cc-yc*cs)/det
	return complex(a, -bb)
}

func response(t *T) {
	sr := t.Rate("sr")
	kind := kinds[t.Int(0, len(kinds)-1, "kind")]
	f := sr * t.LogU(0.01, 0.45, "f")
	q := t.LogU(0.4, 6, "q")
	db := t.U(-18, 18, "db")
	t.Nontrivial(true)
	b := filter.NewBiquad(1)
	apply(b, kind, sr, f, q, db)
	g := FromDB(db)
	A := FromDB(db / 2)
	w0 := 2 * math.Pi * f / sr
	c := design(kind, sr, f, q, db)
	settle := int(40*math.Max(1, q*math.Max(A, 1/A))/math.Sin(w0)) + 300
	type point struct {
		w    float64
		want complex128
		mag  bool
	}
	dc, ny := 0.0, math.Pi
	var pts []point
	mag := func(w, m float64) { pts = append(pts, point{w, complex(m, 0), true}) }
	switch kind {
	case "lowpass":
		mag(dc, 1)
		mag(ny, 0)
		mag(w0, q)
	case "highpass":
		mag(dc, 0)
		mag(ny, 1)
		mag(w0, q)
	case "bandpass":
		mag(dc, 0)
		mag(ny, 0)
		mag(w0, 1)
	case "notch":
		mag(dc, 1)
		mag(ny, 1)
		mag(w0, 0)
	case "allpass":
		mag(dc, 1)
		mag(ny, 1)
		mag(w0, 1)
		mag(t.U(0.05, 3, "w"), 1)
	case "peaking":
		mag(dc, 1)
		mag(ny, 1)
		mag(w0, g)
	case "lowshelf":
		mag(dc, g)
		mag(ny, 1)
	case "highshelf":
		mag(dc, 1)
		mag(ny, g)
	}
	w := t.U(0.05, 3.1, "anyw")
	z := cmplx.Exp(complex(0, -w))
	h := (complex(c.b0, 0) + complex(c.b1, 0)*z + complex(c.b2, 0)*z*z) / (1 + complex(c.a1, 0)*z + complex(c.a2, 0)*z*z)
	pts = append(pts, point{w, h, false})
	p := pts[t.Int(0, len(pts)-1, "point")]
	t.Desc("%s f=%.4g/%v q=%.3g %.3gdB at %.4g", kind, f, sr, q, db, p.w)
	b.Reset()
	got := gainAt(func(x []float32) { b.Process(x, 0) }, p.w, settle, 400)
	scale := math.Max(1, math.Max(g, q)) * (1 + 1e-3*cond(c))
	d := cmplx.Abs(got - p.want)
	if p.mag {
		d = math.Abs(cmplx.Abs(got) - real(p.want))
	}
	if !(d <= 0.003*scale) {
		t.Fatalf("%s at %.6g Hz, Q %.4g, %.4g dB, %v Hz sampling: gain %v at %.6g Hz, expected %v", kind, f, q, db, sr, got, p.w*sr/2/math.Pi, p.want)
	}
}

type svfState struct{ i1, i2 float64 }

// step solves the trapezoidal integrators v1 = i1 + g*hp, v2 = i2 + g*v1 with hp = x - k*v1 - v2.
func (s *svfState) step(g, k, x float64) (lp, hp, bp float64) {
	hp = (x - (k+g)*s.i1 - s.i2) / (1 + k*g + g*g)
	bp = s.i1 + g*hp
	lp = s.i2 + g*bp
	s.i1 = bp + g*hp
	s.i2 = lp + g*bp
	return
}

func svf(t *T) {
	nc := t.Int(1, 3, "channels")
	sr := t.Rate("sr")
	m := filter.NewMultiModeSVF(nc)
	s := &m.SVF
	if t.Bool("plain") {
		s = filter.NewSVF(nc)
		m = nil
	}
	st := make([]svfState, nc)
	g, k := 0.0, 0.0
	f0, q0 := 0.0, 0.0
	peak := 1.0
	first := true
	for blk := t.Size(1, 6, 36, "blocks"); blk > 0; blk-- {
		if first || t.Bool("change") {
			if !first && t.Int(0, 4, "new rate") == 0 {
				sr = t.Rate("sr")
			}
			f, q, _ := genFQ(t, sr)
			if !first && f0 < 0.49*sr && f0 > 0.003*sr {
				f, q = t.Keep(f, f0, "f"), t.Keep(q, q0, "q")
			}
			if !first && t.Bool("one") {
				if t.Bool("which") {
					s.SetFrequency(sr, f)
					g = math.Tan(math.Pi * f / sr)
				} else {
					s.SetQ(q)
					k = 1 / q
				}
			} else {
				s.SetFrequencyAndQ(sr, f, q)
				g, k = math.Tan(math.Pi*f/sr), 1/q
			}
			t.Nontrivial(!first)
			first = false
			f0, q0 = f, q
			t.Desc(" f=%.4g q=%.3g", f/sr, q)
		}
		t.Nontrivial(nc > 1)
		ch := t.Int(0, nc-1, "ch")
		x := t.Signal(t.Size(1, 200, 20000, "n"), 1, "x")
		buf := Clone(x)
		op := t.Int(0, 6, "op")
		if m == nil && op == 6 {
			op = 5
		}
		wl, wh, wb, wn := 0.0, 0.0, 0.0, 0.0
		what := ""
		var outs []filter.SVFOutputs
		switch op {
		case 0:
			s.ProcessLowpass(buf, ch)
			wl, what = 1, "lowpass"
		case 1:
			s.ProcessHighpass(buf, ch)
			wh, what = 1, "highpass"
		case 2:
			s.ProcessBandpass(buf, ch)
			wb, what = 1, "bandpass"
		case 3:
			s.ProcessNotch(buf, ch)
			wn, what = 1, "notch"
		case 4:
			w := func(l string) float32 { return float32(Pick(t, l+"k", t.U(-2, 2, l), t.U(-2, 2, l+"2"), 0, 1)) }
			a, b, c, d := w("ml"), w("mh"), w("mb"), w("mn")
			if t.Int(0, 9, "mute") == 0 {
				a, b, c, d = 0, 0, 0, 0
			}
			s.ProcessMixed(buf, ch, a, b, c, d)
			wl, wh, wb, wn = float64(a), float64(b), float64(c), float64(d)
			what = fmt.Sprintf("mix %v %v %v %v", wl, wh, wb, wn)
		case 5:
			for i := range buf {
				o := s.ProcessSample(buf[i], ch)
				outs = append(outs, o)
				buf[i] = o.Lowpass
			}
			wl, what = 1, "sample"
		case 6:
			mode := Pick(t, "mode", 0.0, 0.25, 0.5, 0.75, 1, 1.25, -0.25, t.U(-2, 3, "modev"))
			m.SetMode(mode)
			m.Process(buf, ch)
			p := (mode - math.Floor(mode)) * 4
			w := [5]float64{}
			w[int(p)] = 1 - (p - math.Floor(p))
			w[int(p)+1] += p - math.Floor(p)
			wl, wb, wh, wn = w[0]+w[4], w[1], w[2], w[3]
			what = fmt.Sprintf("mode %v", mode)
		}
		t.Desc(" %s", what)
		for i := range x {
			lp, hp, bp := st[ch].step(g, k, float64(x[i]))
			n := lp + hp
			for _, v := range []float64{lp, hp, bp} {
				peak = math.Max(peak, math.Abs(v))
			}
			tol := 6e-5 * peak * (1 + 0.002/g) * (1 + g/50) * 4
			want := wl*lp + wh*hp + wb*bp + wn*n
			if !(math.Abs(float64(buf[i])-want) <= tol) {
				t.Fatalf("%s (g %.4g, k %.4g) channel %d sample %d is %v, expected %v", what, g, k, ch, i, buf[i], want)
			}
			if outs != nil {
				o := outs[i]
				for _, p := range [][2]float64{{float64(o.Highpass), hp}, {float64(o.Bandpass), bp}, {float64(o.Notch), n}} {
					if !(math.Abs(p[0]-p[1]) <= tol) {
						t.Fatalf("(g %.4g, k %.4g) channel %d sample %d: outputs %+v, expected lp %v hp %v bp %v notch %v", g, k, ch, i, o, lp, hp, bp, n)
					}
				}
			}
		}
		if t.Int(0, 7, "reset") == 0 {
			s.Reset()
			for i := range st {
				st[i] = svfState{}
			}
			t.Desc(" reset")
		}
	}
}

// designs looks at the first samples only, where rounding has not built up.
func designs(t *T) {
	sr := t.Rate("sr")
	gen := func() (f, q, db float64) {
		f = sr * Pick(t, "fk", t.LogU(1e-6, 0.4999, "f"), t.LogU(1e-4, 0.49, "f2"), 0.25)
		return f, Pick(t, "qk", t.LogU(0.01, 1000, "q"), t.LogU(0.3, 12, "q2"), math.Sqrt2/2), Pick(t, "dbk", t.U(-60, 60, "db"), t.U(-12, 12, "db2"), 0)
	}
	x := make([]float32, 7)
	x[0] = 1
	want := make([]float64, len(x))
	scale := 1e-30
	f, q, db := gen()
	t.Nontrivial(f/sr < 0.003 || q > 12 || q < 0.3 || math.Abs(db) > 18)
	name := ""
	if t.Int(0, 3, "svf") == 0 {
		s := filter.NewSVF(1)
		for k := t.Int(0, 2, "before"); k > 0; k-- {
			a, b, _ := gen()
			s.SetFrequencyAndQ(sr, a, b)
		}
		if t.Bool("both") {
			s.SetFrequencyAndQ(sr, f, q)
		} else if t.Bool("order") {
			s.SetFrequency(sr, f)
			s.SetQ(q)
		} else {
			s.SetQ(q)
			s.SetFrequency(sr, f)
		}
		which := t.Int(0, 3, "out")
		name = []string{"svf lowpass", "svf highpass", "svf bandpass", "svf notch"}[which]
		[]func([]float32, int){s.ProcessLowpass, s.ProcessHighpass, s.ProcessBandpass, s.ProcessNotch}[which](x, 0)
		g, k := math.Tan(math.Pi*f/sr), 1/q
		var st svfState
		for i := range want {
			in := 0.0
			if i == 0 {
				in = 1
			}
			lp, hp, bp := st.step(g, k, in)
			want[i] = []float64{lp, hp, bp, lp + hp}[which]
			// the integrators hold more than the output shows
			scale = math.Max(scale, math.Max(math.Abs(want[i]), math.Abs(hp)*1e-7*(1+g*g)))
			if which != 0 {
				scale = math.Max(scale, 1e-2*math.Max(math.Abs(bp)*k, math.Abs(lp)))
			}
		}
	} else {
		b := filter.NewBiquad(1)
		for k := t.Int(0, 2, "before"); k > 0; k-- {
			f0, q0, d0 := gen()
			apply(b, kinds[t.Int(0, len(kinds)-1, "kind0")], sr, f0, q0, d0)
		}
		name = kinds[t.Int(0, len(kinds)-1, "kind")]
		apply(b, name, sr, f, q, db)
		c := design(name, sr, f, q, db)
		b.Process(x, 0)
		var st state
		for i := range want {
			in := 0.0
			if i == 0 {
				in = 1
			}
			want[i] = st.step(c, in)
			scale = math.Max(scale, math.Abs(want[i]))
		}
	}
	t.Desc("%s f=%.6g of %v q=%.4g %.4gdB", name, f, sr, q, db)
	for i := range x {
		if !(math.Abs(float64(x[i])-want[i]) <= 2e-4*scale) {
			t.Fatalf("%s at %v Hz of %v, Q %v, %v dB: sample %d of the impulse response is %v, expected %v (largest %v)", name, f, sr, q, db, i, x[i], want[i], scale)
		}
	}
}

// genCut draws a cutoff, also beyond what the coefficient is clamped to.
func genCut(t *T) float64 {
	return float64(float32(Pick(t, "cutk", t.U(1, 40, "cut"), t.LogU(0.1, 5000, "cut2"), 0, -5)))
}

type dc1 struct{ x, y float64 }

func (d *dc1) step(r, x float64) float64 {
	d.y = x - d.x + r*d.y
	d.x = x
	return d.y
}

func dcblock(t *T) {
	sr := t.Rate("sr")
	off := Pick(t, "offset", 0.0, 0.5, -1, t.U(-1, 1, "off"))
	t.Nontrivial(off != 0)
	if t.Bool("simple") {
		d := utility.NewSimpleDCBlocker(sr)
		var ref dc1
		r := 1 - 2*math.Pi*10/sr
		peak := 1.0
		for blk := t.Size(1, 4, 24, "blocks"); blk > 0; blk-- {
			x := t.Signal(t.Size(1, 300, 20000, "n"), 1, "x")
			for i := range x {
				x[i] += float32(off)
			}
			buf := Clone(x)
			if t.Bool("buf") {
				d.ProcessBuffer(buf)
			} else {
				for i := range buf {
					buf[i] = d.Process(buf[i])
				}
			}
			for i := range x {
				want := ref.step(r, float64(x[i]))
				peak = math.Max(peak, math.Abs(want))
				if !(math.Abs(float64(buf[i])-want) <= 4e-4*peak) {
					t.Fatalf("at %v Hz: sample %d is %v, expected %v", sr, i, buf[i], want)
				}
			}
			if t.Bool("reset") {
				d.Reset()
				ref = dc1{}
			}
		}
		d.Reset()
		v := float32(0)
		for i := 0; i < int(sr); i++ {
			v = d.Process(float32(off))
		}
		if !(math.Abs(float64(v)) <= 1e-4) {
			t.Fatalf("at %v Hz: %v of a constant %v is left after a second", sr, v, off)
		}
		t.Desc("simple %v %v", sr, off)
		return
	}
	nc := t.Int(1, 3, "channels")
	cut := genCut(t)
	coefOf := func(cut, sr float64) float64 { return math.Min(0.999, math.Max(0.9, 1-2*math.Pi*cut/sr)) }
	d := utility.NewDCBlocker(nc, float32(cut), sr)
	r := coefOf(cut, sr)
	ref := make([]dc1, nc)
	peak := 1.0
	t.Desc("%d channels cut %.3g/%v off %v", nc, cut, sr, off)
	run := func(ch int, x, buf []float32) {
		for i := range x {
			want := ref[ch].step(r, float64(x[i]))
			peak = math.Max(peak, math.Abs(want))
			if !(math.Abs(float64(buf[i])-want) <= 4e-4*peak) {
				t.Fatalf("cutoff %v at %v Hz: channel %d sample %d is %v, expected %v", cut, sr, ch, i, buf[i], want)
			}
		}
	}
	for blk := t.Size(1, 5, 30, "blocks"); blk > 0; blk-- {
		n := t.Size(1, 200, 20000, "n")
		mk := func() (x, b []float32) {
			x = t.Signal(n, 1, "x")
			for i := range x {
				x[i] += float32(off)
			}
			return x, Clone(x)
		}
		switch t.Int(0, 4, "op") {
		case 0:
			x, b := mk()
			ch := t.Int(0, nc, "ch") // also one beyond
			if t.Bool("buf") {
				d.ProcessBuffer(b, ch)
			} else {
				for i := range b {
					b[i] = d.Process(b[i], ch)
				}
			}
			if ch < nc {
				run(ch, x, b)
			} else if i, ok := SameBits(x, b); !ok {
				t.Fatalf("a channel beyond the blocker's is changed at %d", i)
			}
		case 1:
			x, b := mk()
			y, c := mk()
			d.ProcessStereo(b, c)
			if nc >= 2 {
				run(0, x, b)
				run(1, y, c)
			}
		case 2:
			var xs, bs [][]float32
			for ch := t.Int(0, nc+1, "given"); ch > 0; ch-- {
				x, b := mk()
				xs, bs = append(xs, x), append(bs, b)
			}
			d.ProcessMultiChannel(bs)
			for ch := range bs {
				if ch < nc {
					run(ch, xs[ch], bs[ch])
				} else if i, ok := SameBits(xs[ch], bs[ch]); !ok {
					t.Fatalf("a channel beyond the blocker's is changed at %d", i)
				}
			}
		case 3:
			cut = t.Keep(genCut(t), cut, "cut")
			if t.Int(0, 2, "new rate") == 0 {
				sr = t.Rate("sr")
			}
			d.SetCutoff(float32(cut), sr)
			r = coefOf(cut, sr)
			t.Desc(" cut %.3g", cut)
		case 4:
			d.Reset()
			for i := range ref {
				ref[i] = dc1{}
			}
			t.Desc(" reset")
		}
	}
	v := float32(0)
	for i := 0; i < int(sr); i++ {
		v = d.Process(float32(off), 0)
	}
	if !(math.Abs(float64(v)) <= 1e-3) {
		t.Fatalf("cutoff %v at %v Hz: %v of a constant %v is left after a second", cut, sr, v, off)
	}
}
