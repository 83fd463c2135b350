// C33: interpolation, resampling and parameter scaling.
package main

import (
	"math"

	ip "github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C33",
		Subs: []Sub{
			{Name: "points", Quick: 120000, Thorough: 600000, Fn: points,
				Rule: "random and polynomial sample sets at all fractions: linear, cubic and Hermite values against the Lagrange/Catmull-Rom form in double precision, hitting the samples at 0 and 1; non-trivial: fraction strictly inside"},
			{Name: "windowed", Quick: 60000, Thorough: 300000, Fn: windowed,
				Rule: "sinc and Lanczos values anywhere in a buffer, its ends and beyond included, against the kernels in double precision, and on slow sines against the sine itself; non-trivial: a whole window inside the buffer"},
			{Name: "allpass", Quick: 23000, Thorough: 115000, Fn: allpass,
				Rule: "allpass interpolation against its recurrence, unit gain at every frequency and a low-frequency delay equal to the fraction; non-trivial: fraction strictly inside"},
			{Name: "resample", Quick: 80000, Thorough: 400000, Fn: resample,
				Rule: "buffers of every length, ratios up and down, outputs shorter and longer than needed, against direct evaluation at position index/ratio; non-trivial: at least 8 samples written"},
			{Name: "scale", Quick: 160000, Thorough: 800000, Fn: scale,
				Rule: "linear, exponential, curved, skewed, stepped and bipolar scaling over generated ranges against closed forms and round trips; non-trivial: value strictly inside"},
			{Name: "smooth", Quick: 6200, Thorough: 100000, Fn: smooth,
				Rule: "one-pole parameter smoothing histories against the closed-form exponential; non-trivial: at least one retarget"},
		},
		Assumptions: []string{"fractions lie in [0,1]"},
	})
}

func lerp(a, b, f float64) float64 { return a + (b-a)*f }

func cat(y [4]float64, f float64) float64 {
	// Catmull-Rom in Hermite basis form
	m1, m2 := (y[2]-y[0])/2, (y[3]-y[1])/2
	f2, f3 := f*f, f*f*f
	return y[1]*(2*f3-3*f2+1) + m1*(f3-2*f2+f) + y[2]*(-2*f3+3*f2) + m2*(f3-f2)
}

func points(t *T) {
	amp := Pick(t, "amp", 1.0, 1.0, 1e-3, 1e3)
	var y [4]float64
	var s [4]float32
	poly := -1
	var c [3]float64
	if t.Bool("polynomial") {
		poly = t.Int(0, 2, "degree")
		for i := 0; i <= poly; i++ {
			c[i] = t.U(-amp, amp, "coef")
		}
	}
	for i := range s {
		if poly >= 0 {
			x := float64(i - 1)
			s[i] = float32(c[0] + c[1]*x + c[2]*x*x)
		} else {
			s[i] = float32(t.U(-amp, amp, "y"))
		}
		y[i] = float64(s[i])
	}
	frac := float32(t.U(0, 1, "frac"))
	f := float64(frac)
	t.Nontrivial(frac > 0 && frac < 1)
	t.Desc("y=%v frac=%v", s, frac)
	m := 0.0
	for _, v := range y {
		m = math.Max(m, math.Abs(v))
	}
	tol := 4e-6*m + 1e-30
	chk := func(name string, got float32, want, tol float64) {
		if !(math.Abs(float64(got)-want) <= tol) {
			t.Fatalf("%s at fraction %v of %v gives %v, expected %v", name, frac, s, got, want)
		}
	}
	chk("linear interpolation", ip.Linear(s[1], s[2], frac), lerp(y[1], y[2], f), tol)
	chk("cubic interpolation", ip.Cubic(s[0], s[1], s[2], s[3], frac), cat(y, f), tol)
	chk("Hermite interpolation", ip.Hermite(s[0], s[1], s[2], s[3], frac), cat(y, f), tol)
	if poly >= 0 {
		want := c[0] + c[1]*f + c[2]*f*f
		chk("cubic interpolation of a polynomial", ip.Cubic(s[0], s[1], s[2], s[3], frac), want, tol)
		chk("Hermite interpolation of a polynomial", ip.Hermite(s[0], s[1], s[2], s[3], frac), want, tol)
	}
	sf := float32(t.U(0, 1, "smoothing"))
	chk("smoothing", ip.Smooth(s[0], s[1], sf), y[0]+(y[1]-y[0])*float64(sf), tol)
	b := s
	ip.SmoothBuffer(b[:], s[2], sf)
	for i := range b {
		chk("buffer smoothing", b[i], y[i]+(y[2]-y[i])*float64(sf), tol)
	}
}

func sinc(x float64) float64 {
	if x == 0 {
		return 1
	}
	return math.Sin(math.Pi*x) / (math.Pi * x)
}

func windowed(t *T) {
	n := t.Size(1, 80, 20000, "n")
	x := t.Signal(n, 1, "x")
	idx := t.Int(-5, n+4, "index")
	frac := float32(t.U(0, 1, "frac"))
	f := float64(frac)
	w := t.Int(0, 40, "window")
	a := t.Int(0, 6, "a")
	t.Desc(" idx=%d frac=%v window=%d a=%d", idx, frac, w, a)
	ew, ea := w, a
	if ew < 2 {
		ew = 2
	}
	if ea < 1 {
		ea = 2
	}
	at := func(i int) float64 {
		if i < 0 || i >= n {
			return 0
		}
		return float64(x[i])
	}
	h := ew / 2
	ws, ls := 0.0, 0.0
	for i := -h; i <= h; i++ {
		d := float64(i) - f
		p := d / float64(2*h)
		if math.Abs(p) > 0.5 {
			continue
		}
		ws += at(idx+i) * sinc(d) * (0.42 + 0.5*math.Cos(2*math.Pi*p) + 0.08*math.Cos(4*math.Pi*p))
	}
	for i := -ea; i <= ea+1; i++ {
		d := float64(i) - f
		if math.Abs(d) < float64(ea) {
			ls += at(idx+i) * sinc(d) * sinc(d/float64(ea))
		}
	}
	t.Nontrivial(idx-h >= 0 && idx+h+1 < n)
	if got := ip.Sinc(x, idx, frac, w); !Close(float64(got), ws, 3e-5, 0) {
		t.Fatalf("sinc interpolation at %d+%v, window %d, gives %v, expected %v", idx, frac, w, got, ws)
	}
	if got := ip.Lanczos(x, idx, frac, a); !Close(float64(got), ls, 3e-5, 0) {
		t.Fatalf("Lanczos interpolation at %d+%v, size %d, gives %v, expected %v", idx, frac, a, got, ls)
	}
	// A slow sine is reproduced between its samples.
	freq, ph := t.U(0.01, 0.15, "sine"), t.U(0, 6.28, "phase")
	s := make([]float32, 120)
	for i := range s {
		s[i] = float32(math.Sin(2*math.Pi*freq*float64(i) + ph))
	}
	k := t.Int(40, 80, "k")
	want := math.Sin(2*math.Pi*freq*(float64(k)+f) + ph)
	if got := ip.Sinc(s, k, frac, 32); !(math.Abs(float64(got)-want) <= 2e-3) {
		t.Fatalf("sinc interpolation of a sine of frequency %v at %d+%v gives %v, the sine is %v", freq, k, frac, got, want)
	}
	if got := ip.Lanczos(s, k, frac, 3); !(math.Abs(float64(got)-want) <= 2.5e-2) {
		t.Fatalf("Lanczos interpolation of a sine of frequency %v at %d+%v gives %v, the sine is %v", freq, k, frac, got, want)
	}
}

func allpass(t *T) {
	p := ip.NewAllPass()
	n := t.Size(1, 60, 20000, "n")
	x := t.Signal(n, 1, "x")
	frac := float32(t.U(0, 1, "frac"))
	f := float64(frac)
	t.Nontrivial(frac > 0.01 && frac < 0.99)
	t.Desc(" frac=%v", frac)
	reset := t.Int(0, n, "reset")
	x1, y1 := 0.0, 0.0
	for i, v := range x {
		if i == reset {
			p.Reset()
			x1, y1 = 0, 0
		}
		if t.Int(0, 9, "change") == 0 {
			frac = float32(t.U(0, 1, "frac2"))
			f = float64(frac)
		}
		a := (1 - f) / (1 + f)
		y := a*float64(v) + x1 - a*y1
		x1, y1 = float64(v), y
		if got := p.Process(v, frac); !Close(float64(got), y, 1e-4, 0) {
			t.Fatalf("sample %d: allpass interpolation gives %v, expected %v", i, got, y)
		}
	}
	// A low sine comes out with the same amplitude, delayed by the fraction.
	frac = float32(t.U(0.05, 1, "delay"))
	w := 2 * math.Pi * t.U(0.001, 0.01, "w")
	p.Reset()
	N := 1500
	for i := 0; i < N; i++ {
		got := float64(p.Process(float32(math.Sin(w*float64(i))), frac))
		if i > 400 {
			if want := math.Sin(w * (float64(i) - float64(frac))); !(math.Abs(got-want) <= 2e-3) {
				t.Fatalf("a sine at %v rad/sample through a fractional delay of %v gives %v at sample %d, expected %v", w, frac, got, i, want)
			}
		}
	}
}

func resample(t *T) {
	n := t.Size(0, 200, 20000, "n")
	x := t.Signal(n, 1, "x")
	m := t.Int(0, 300, "out")
	ratio := float32(t.LogU(0.05, 20, "ratio"))
	if t.Int(0, 2, "simple") == 0 {
		ratio = Pick(t, "ratio2", float32(1), 2, 0.5, 4, 0.25, 3, 0, -1)
	}
	t.Desc(" out=%d ratio=%v", m, ratio)
	for _, cubic := range []bool{false, true} {
		name := "linear resampling"
		out := make([]float32, m)
		for i := range out {
			out[i] = 9
		}
		var got int
		if cubic {
			name = "cubic resampling"
			got = ip.ResampleCubic(x, ratio, out)
		} else {
			got = ip.Resample(x, ratio, out)
		}
		last := float64(n - 1)
		if cubic {
			last = float64(n - 2)
		}
		if ratio <= 0 || (cubic && n < 4) || n < 1 {
			if got != 0 {
				t.Fatalf("%s of %d samples at ratio %v wrote %d", name, n, ratio, got)
			}
			for i := range out {
				if out[i] != 9 {
					t.Fatalf("%s of nothing wrote sample %d", name, i)
				}
			}
			continue
		}
		// Positions below the last usable one are written; rounding may
		// decide for a position within 1e-4 of it.
		if got > m {
			t.Fatalf("%s reports %d samples in a buffer of %d", name, got, m)
		}
		if got < m && float64(got)/float64(ratio) < last-1e-4*float64(n) {
			t.Fatalf("%s of %d samples at ratio %v stops after %d of %d samples", name, n, ratio, got, m)
		}
		if got > 0 && float64(got-1)/float64(ratio) > last+1e-4*float64(n) {
			t.Fatalf("%s of %d samples at ratio %v reports %d samples, beyond the input", name, n, ratio, got)
		}
		t.Nontrivial(got >= 8)
		for i := got; i < m; i++ {
			if out[i] != 9 {
				t.Fatalf("%s reports %d samples but wrote sample %d", name, got, i)
			}
		}
		at := func(i int) float64 { return float64(x[i]) }
		for i := 0; i < got; i++ {
			p := float64(i) / float64(ratio)
			// The value at p, allowing p to be off by rounding.
			ok := false
			var want float64
			for _, q := range []float64{p, p - 1e-6*float64(n), p + 1e-6*float64(n)} {
				if q < 0 {
					q = 0
				}
				k := int(q)
				if k >= n-1 {
					k = n - 2
				}
				f := q - float64(k)
				w := lerp(at(k), at(k+1), f)
				if cubic && k >= 1 && k+2 < n {
					w = cat([4]float64{at(k - 1), at(k), at(k + 1), at(k + 2)}, f)
				}
				want = w
				if math.Abs(float64(out[i])-w) <= 1e-4+1e-6*float64(n)*4 {
					ok = true
					break
				}
			}
			if !ok {
				t.Fatalf("%s of %d samples at ratio %v: sample %d is %v, expected %v", name, n, ratio, i, out[i], want)
			}
		}
	}
}

func scale(t *T) {
	v := t.U(0, 1, "v")
	lo := Pick(t, "lo", 0.0, 20, -1, -60, 0.001, t.U(-100, 100, "lov"))
	hi := Pick(t, "hi", 1.0, 20000, 0, 10, lo, t.U(-100, 100, "hiv"))
	t.Nontrivial(v > 0 && v < 1 && lo != hi)
	t.Desc("v=%v range=[%v,%v]", v, lo, hi)
	span := math.Max(math.Abs(lo), math.Abs(hi))
	near := func(what string, got, want, tol float64) {
		if !(math.Abs(got-want) <= tol) {
			t.Fatalf("%s of %v over [%v,%v] gives %v, expected %v", what, v, lo, hi, got, want)
		}
	}
	lin := lo*(1-v) + hi*v
	near("linear scaling", utility.ScaleParameter(v, lo, hi), lin, 1e-12*span)
	if lo == hi {
		near("linear unscaling", utility.UnscaleParameter(lin, lo, hi), 0, 0)
		near("exponential unscaling", utility.UnscaleParameterExp(lin, lo, hi), 0, 0)
	} else if math.Abs(hi-lo) > 1e-3 {
		near("linear unscaling", utility.UnscaleParameter(lin, lo, hi), v, 1e-9)
	}
	exp := lin
	if lo > 0 && hi > 0 {
		exp = math.Exp(math.Log(lo)*(1-v) + math.Log(hi)*v)
	}
	near("exponential scaling", utility.ScaleParameterExp(v, lo, hi), exp, 1e-11*span)
	if lo != hi && math.Abs(hi-lo) > 1e-3 {
		near("exponential unscaling", utility.UnscaleParameterExp(exp, lo, hi), v, 1e-8)
	}
	curve := t.LogU(0.1, 10, "curve")
	near("curved scaling", utility.ScaleParameterWithCurve(v, lo, hi, curve), lo+math.Pow(v, curve)*(hi-lo), 1e-10*span+1e-300)
	near("skew", utility.SkewParameter(v, curve), math.Pow(v, 1/curve), 1e-11)
	near("skew by one", utility.SkewParameter(v, 1), v, 0)
	a, b := math.Min(lo, hi), math.Max(lo, hi)
	x := t.U(a-10, b+10, "x")
	near("clamping", utility.ClampParameter(x, a, b), math.Max(a, math.Min(b, x)), 0)
	near("bipolar conversion", utility.UnipolarToBipolar(v), 2*v-1, 1e-15)
	near("unipolar conversion", utility.BipolarToUnipolar(2*v-1), v, 1e-15)
	steps := t.Int(-1, 40, "steps")
	q := utility.QuantizeParameter(v, steps)
	if steps <= 1 {
		near("quantizing to nothing", q, v, 0)
	} else {
		k := q * float64(steps-1)
		if !(math.Abs(k-math.Round(k)) <= 1e-9) || q < 0 || q > 1+1e-12 {
			t.Fatalf("quantizing %v to %d steps gives %v, which is none of them", v, steps, q)
		}
		if !(math.Abs(q-v) <= 0.5/float64(steps-1)+1e-12) {
			t.Fatalf("quantizing %v to %d steps gives %v, which is not the nearest", v, steps, q)
		}
	}
}

func smooth(t *T) {
	sec, sr := t.LogU(0.0005, 0.5, "sec"), t.Rate("sr")
	s := utility.NewSmoothParameter(sec, sr)
	t.Desc("%v s at %v Hz", sec, sr)
	cur, tgt := 0.0, 0.0
	k := math.Exp(-1 / (sec * sr))
	for op := t.Size(1, 12, 72, "ops"); op > 0; op-- {
		switch t.Int(0, 3, "op") {
		case 0:
			tgt = t.U(-10, 10, "target")
			s.SetTarget(tgt)
			t.Nontrivial(true)
		case 1:
			cur = t.U(-10, 10, "value")
			tgt = cur
			s.SetImmediate(cur)
			if s.GetCurrent() != cur || s.IsSmoothing() {
				t.Fatalf("after setting %v at once the value is %v, smoothing %v", cur, s.GetCurrent(), s.IsSmoothing())
			}
		case 2, 3:
			n := t.Size(1, 2000, 20000, "n")
			from := cur
			for i := 1; i <= n; i++ {
				got := s.Process()
				cur = tgt + (from-tgt)*math.Pow(k, float64(i))
				if !Close(got, cur, 1e-8, 0) || got != s.GetCurrent() {
					t.Fatalf("%d samples after a change from %v to %v the value is %v (reported %v), expected %v", i, from, tgt, got, s.GetCurrent(), cur)
				}
			}
			if d := math.Abs(cur - tgt); (d > 1.1e-6 && !s.IsSmoothing()) || (d < 0.9e-6 && s.IsSmoothing()) {
				t.Fatalf("%v from the target, smoothing is reported as %v", d, s.IsSmoothing())
			}
			cur = s.GetCurrent()
		}
	}
}
