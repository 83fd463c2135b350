// C21: oscillators and noise.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C21",
		Subs: []Sub{
			{Name: "waves", Quick: 36000, Thorough: 180000, Fn: waves,
				Rule: "histories of sample and buffer generation of all waveforms with frequency (negative and above Nyquist too), phase and reset changes, against the waveform of the accumulated phase; non-trivial: 2 waveforms or a frequency change"},
			{Name: "blit", Quick: 10000, Thorough: 50000, Fn: blit,
				Rule: "band-limited impulse trains with frequency changes against the sum of the harmonics below Nyquist; non-trivial: 2 harmonics or more"},
			{Name: "blsaw", Quick: 600, Thorough: 12000, Fn: blsaw,
				Rule: "band-limited saws of exact periods: spectrum of the settled output against the sawtooth's harmonics and nothing between or beyond them; non-trivial: 2 harmonics or more"},
			{Name: "noise", Quick: 23000, Thorough: 115000, Fn: noise,
				Rule: "all noise types, seeds, type changes, resets and ways to generate: reproducible from the seed, bounded, and adding is generating scaled; non-trivial: not white"},
			{Name: "spectrum", Quick: 110, Thorough: 600, Fn: spectrum,
				Rule: "power in octave bands of 65536 seeded samples against the slope each noise colour is named for; non-trivial: always"},
			{Name: "center", Quick: 60, Thorough: 400, Fn: center,
				Rule: "the mean of 131072 samples of white, pink, blue and violet noise after each of 8 resets, against its spread: no constant offset stays; non-trivial: pink"},
			{Name: "gauss", Quick: 800, Thorough: 4000, Fn: gauss,
				Rule: "moments, tails and autocorrelation of 40000 Gaussian and white samples; non-trivial: always"},
		},
		Assumptions: []string{"samples within 1e-6 of a jump of the waveform may lie on either side of it"},
	})
}

type wave struct {
	name string
	one  func(o *oscillator.Oscillator, w float64) float32
	buf  func(o *oscillator.Oscillator, b []float32, w float64)
	val  func(p, w float64) float64
	jump func(w float64) []float64
}

func sq(p, w float64) float64 {
	if p < w {
		return 1
	}
	return -1
}

var wavesTab = []wave{
	{"sine", func(o *oscillator.Oscillator, w float64) float32 { return o.Sine() }, func(o *oscillator.Oscillator, b []float32, w float64) { o.ProcessSine(b) },
		func(p, w float64) float64 { return math.Sin(2 * math.Pi * p) }, func(w float64) []float64 { return nil }},
	{"saw", func(o *oscillator.Oscillator, w float64) float32 { return o.Saw() }, func(o *oscillator.Oscillator, b []float32, w float64) { o.ProcessSaw(b) },
		func(p, w float64) float64 { return 2*p - 1 }, func(w float64) []float64 { return []float64{0, 1} }},
	{"square", func(o *oscillator.Oscillator, w float64) float32 { return o.Square() }, func(o *oscillator.Oscillator, b []float32, w float64) { o.ProcessSquare(b) },
		func(p, w float64) float64 { return sq(p, 0.5) }, func(w float64) []float64 { return []float64{0, 0.5, 1} }},
	{"pulse", func(o *oscillator.Oscillator, w float64) float32 { return o.Pulse(w) }, func(o *oscillator.Oscillator, b []float32, w float64) { o.ProcessPulse(b, w) },
		func(p, w float64) float64 { return sq(p, w) }, func(w float64) []float64 { return []float64{0, w, 1} }},
	{"triangle", func(o *oscillator.Oscillator, w float64) float32 { return o.Triangle() }, func(o *oscillator.Oscillator, b []float32, w float64) { o.ProcessTriangle(b) },
		func(p, w float64) float64 { return 1 - 4*math.Abs(p-0.5) }, func(w float64) []float64 { return nil }},
}

func frac(x float64) float64 { return x - math.Floor(x) }

func genFreq(t *T, sr float64) float64 {
	switch t.Int(0, 7, "freq.kind") {
	case 0:
		return 0
	case 1:
		return -t.LogU(0.1, sr/2, "freq")
	case 2:
		return t.U(sr/2, 2.5*sr, "freq")
	case 3:
		return sr / float64(t.Int(1, 64, "div"))
	case 4:
		return -sr * 2.25
	}
	return t.LogU(0.1, sr/2, "freq")
}

func waves(t *T) {
	sr := t.Rate("sr")
	exact := t.Int(0, 3, "exact") == 0
	if exact { // every phase has few bits, so the sample at a jump is certain
		sr = Pick(t, "sr2", 32768.0, 65536, 131072)
	}
	o := oscillator.New(sr)
	f := 440.0
	if exact {
		f = sr / 64
		o.SetFrequency(f)
	}
	ph := 0.0
	changed, kinds := false, map[int]bool{}
	t.Desc("sr=%v", sr)
	for op := t.Size(1, 15, 90, "ops"); op > 0; op-- {
		switch t.Int(0, 7, "op") {
		case 0, 1:
			f = genFreq(t, sr)
			if exact {
				f = sr * float64(t.Int(-140, 140, "f64")) / 64
			}
			o.SetFrequency(f)
			changed = true
			t.Desc(" f=%v", f)
		case 2:
			ph = t.U(-3, 3, "phase")
			if exact {
				ph = math.Round(ph*64) / 64
			}
			o.SetPhase(ph)
			ph = frac(ph)
			t.Desc(" phase=%v", ph)
		case 3:
			o.Reset()
			ph = 0
			t.Desc(" reset")
		default:
			k := t.Int(0, len(wavesTab)-1, "wave")
			kinds[k] = true
			w := wavesTab[k]
			width := Pick(t, "widthk", t.U(0, 1, "width"), t.U(0, 1, "width1"), 0, 1, 0.001, t.U(-0.5, 1.5, "width2"))
			if exact {
				width = math.Round(width*64) / 64
			}
			n := t.Size(0, 200, 8000, "n")
			b := make([]float32, n)
			blk := t.Bool("block")
			if blk {
				w.buf(o, b, width)
			} else {
				for i := range b {
					b[i] = w.one(o, width)
				}
			}
			t.Desc(" %s*%d", w.name, n)
			for i := range b {
				p := frac(ph + float64(i)*f/sr)
				near := false
				for _, j := range w.jump(width) {
					near = near || math.Abs(p-j) < 1e-6 && !exact
				}
				want := w.val(p, width)
				if near {
					if !(math.Abs(float64(b[i])) <= 1+1e-6) {
						t.Fatalf("%s gives %v at a jump", w.name, b[i])
					}
				} else if !Close(float64(b[i]), want, 1e-5, 0) {
					t.Fatalf("%s at %v Hz of %v, width %v: sample %d, phase %v, is %v, expected %v", w.name, f, sr, width, i, p, b[i], want)
				}
			}
			ph = frac(ph + float64(n)*f/sr)
		}
	}
	t.Nontrivial(changed || len(kinds) > 1)
}

func blit(t *T) {
	sr := t.Rate("sr")
	b := oscillator.NewBLIT(sr)
	f := 440.0
	ph := 0.0
	t.Desc("sr=%v", sr)
	for op := t.Size(1, 6, 36, "ops"); op > 0; op-- {
		if t.Int(0, 3, "change") > 0 {
			f = t.LogU(sr/200, sr*0.7, "f")
			if t.Int(0, 3, "exact") == 0 {
				f = sr / (float64(t.Int(1, 60, "div")) + 0.5)
			}
			if t.Int(0, 9, "zero") == 0 {
				f = 0
			}
			if t.Int(0, 3, "backwards") == 0 {
				f = -f
			}
			b.SetFrequency(f)
		}
		if q := 0.5 * sr / math.Abs(f); f != 0 && math.Abs(q-math.Round(q)) < 1e-6 {
			f *= 1.0001 // the top harmonic would be exactly at Nyquist
			b.SetFrequency(f)
		}
		m := 0
		if f != 0 {
			m = int(0.5 * sr / math.Abs(f))
		}
		t.Nontrivial(m >= 2)
		n := t.Size(1, 60, 8000, "n")
		t.Desc(" f=%v*%d", f, n)
		for i := 0; i < n; i++ {
			s := 1.0
			for k := 1; k <= m; k++ {
				s += 2 * math.Cos(2*math.Pi*float64(k)*ph)
			}
			s /= float64(2*m + 1)
			if got := b.BLIT(); !Close(float64(got), s, 1e-5, 0) {
				t.Fatalf("impulse train at %v Hz of %v: phase %v gives %v, the sum of its %d harmonics is %v", f, sr, ph, got, m, s)
			}
			ph = frac(ph + f/sr)
		}
	}
}

func blsaw(t *T) {
	sr := t.Rate("sr")
	N := t.Int(24, 400, "N")
	q := t.Int(1, N/2, "periods")
	for g := gcd(N, q); g > 1; g = gcd(N, q) {
		q /= g
	}
	f := sr * float64(q) / float64(N)
	fresh, tuned := oscillator.NewBandLimitedSaw(sr), oscillator.NewBandLimitedSaw(sr)
	tuned.SetFrequency(440)
	for i := t.Int(1, 64, "fresh"); i > 0; i-- {
		if a, b := fresh.Next(), tuned.Next(); a != b {
			t.Fatalf("a new saw at %v gives %v, one set to concert pitch %v", sr, a, b)
		}
	}
	s := oscillator.NewBandLimitedSaw(sr)
	before := t.Bool("before")
	if before {
		s.SetFrequency(t.LogU(100, sr/2, "f0"))
		s.Process(make([]float32, t.Int(1, 500, "n0")))
		if t.Bool("close") { // a small step is a step
			s.SetFrequency(f * (1 + t.U(-0.03, 0.03, "step")))
			s.Process(make([]float32, t.Int(1, 500, "n1")))
		}
	}
	if t.Int(0, 3, "stopped") == 0 { // at 0 Hz it stays where it is
		s.SetFrequency(0)
		v0 := s.Next()
		for i := t.Int(1, 2000, "hold"); i > 0; i-- {
			if v := s.Next(); !Close(float64(v), float64(v0), 1e-5, 1e-5) {
				t.Fatalf("the saw at 0 Hz of %v moves from %v to %v", sr, v0, v)
			}
		}
	}
	sign := 1
	if t.Int(0, 3, "backwards") == 0 {
		sign = -1
	}
	s.SetFrequency(f * float64(sign))
	m := (N - 1) / 2 / q
	if 2*q*((N/2)/q) == N {
		m = N / 2 / q // top harmonic exactly at Nyquist; excluded below
	}
	t.Nontrivial(m >= 2)
	t.Desc("f=%v (%d/%d) sr=%v", f, q, N, sr)
	settle := int(1500 * sr / f)
	if settle > 400000 {
		settle = 400000
	}
	// (the leak takes about 50 periods; 1500 leave nothing of the start)
	b := make([]float32, settle+N)
	h := t.Int(1, len(b)-1, "split")
	s.Process(b[:h])
	for i := h; i < len(b); i++ {
		if t.Int(0, 1, "kind") == 0 || i+3 > len(b) {
			b[i] = s.Next()
		} else {
			s.Process(b[i:])
			break
		}
	}
	for i, v := range b {
		if !(math.Abs(float64(v)) <= 6) {
			t.Fatalf("the saw at %v Hz of %v reaches %v at sample %d", f, sr, v, i)
		}
	}
	x := b[len(b)-N:]
	for k := 0; k <= N/2; k++ {
		if 2*k == N {
			continue
		}
		re, im := 0.0, 0.0
		for i, v := range x {
			a := 2 * math.Pi * float64(k) * float64(i) / float64(N)
			re += float64(v) * math.Cos(a)
			im -= float64(v) * math.Sin(a)
		}
		mag := 2 * math.Hypot(re, im) / float64(N)
		want, tol := 0.0, 0.004
		if k > 0 && k%q == 0 {
			// a summed (rather than integrated) impulse train of unit steps
			want = 2 * float64(q) / float64(N) / math.Sin(math.Pi*float64(k)/float64(N))
			tol = 0.004 + 0.01*want
		}
		if !(math.Abs(mag-want) <= tol) {
			t.Fatalf("the saw at %v Hz of %v has %v at %v Hz, expected %v", f, sr, mag, float64(k)*sr/float64(N), want)
		}
	}
	// Rising, in step with the plain saw.
	if !before {
		c, e := 0.0, 0.0
		for i, v := range x {
			p := 2*frac(float64(len(b)-N+i)*float64(sign*q)/float64(N)) - 1
			c, e = c+p*float64(v), e+p*p
		}
		if N/q >= 8 && c < 0.5*e {
			t.Fatalf("the saw at %v Hz of %v does not follow the saw of its phase (correlation %v)", f, sr, c/e)
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var types = []utility.NoiseType{utility.WhiteNoise, utility.PinkNoise, utility.BrownNoise, utility.BlueNoise, utility.VioletNoise}

func noise(t *T) {
	ty := types[t.Int(0, 4, "type")]
	seed := int64(t.Int(-1000000, 1000000, "seed"))
	t.Nontrivial(ty != utility.WhiteNoise)
	t.Desc("type=%d seed=%d", ty, seed)
	a, b := utility.NewNoiseGenerator(ty), utility.NewNoiseGenerator(types[t.Int(0, 4, "other")])
	for k := t.Int(0, 50, "warm"); k > 0; k-- {
		b.Next()
	}
	b.SetType(ty)
	a.SetSeed(seed)
	b.SetSeed(seed)
	n := t.Size(1, 300, 8000, "n")
	g := float32(Pick(t, "gk", t.U(-2, 2, "gain"), 0, 1))
	cut := t.Int(0, n, "switch")
	ty2 := types[t.Int(0, 4, "type2")]
	rst := t.Int(0, 3*n, "reset")
	x := make([]float32, n)
	for i := range x {
		if i == cut {
			a.SetType(ty2)
		}
		if i == rst {
			a.Reset()
		}
		x[i] = a.Next()
		if !(math.Abs(float64(x[i])) <= 1) {
			t.Fatalf("noise type %d gives %v", ty, x[i])
		}
	}
	y := make([]float32, n)
	add := t.Bool("add")
	base := t.Signal(n, 1, "base")
	copy(y, base)
	fill := func(v []float32) {
		if add {
			b.GenerateAdd(v, g)
		} else {
			b.Generate(v)
		}
	}
	marks := []int{0, cut, rst, n}
	for i := 0; i < n; {
		e := n
		for _, m := range marks {
			if m > i && m < e {
				e = m
			}
		}
		if i == cut {
			b.SetType(ty2)
		}
		if i == rst {
			b.Reset()
		}
		fill(y[i:e])
		i = e
	}
	for i := range x {
		want := float64(x[i])
		if add {
			want = float64(base[i]) + float64(x[i])*float64(g)
		}
		if !Close(float64(y[i]), want, 1e-6, 0) {
			t.Fatalf("two generators of type %d then %d with seed %d differ at sample %d: %v, expected %v (added: %v, gain %v)", ty, ty2, seed, i, y[i], want, add, g)
		}
	}
	// White noise is not constant, and other seeds give other noise.
	if n > 8 {
		same := true
		for i := 1; i < n; i++ {
			same = same && x[i] == x[0]
		}
		c := utility.NewNoiseGenerator(ty)
		c.SetSeed(seed + 1)
		z := make([]float32, n)
		c.Generate(z)
		if _, eq := SameBits(z, x); same || eq {
			t.Fatalf("noise type %d is constant or does not depend on its seed", ty)
		}
	}
	w := make([]float32, n)
	utility.WhiteNoiseBuffer(w)
	for _, v := range w {
		if !(math.Abs(float64(v)) <= 1) {
			t.Fatalf("white noise gives %v", v)
		}
	}
}

// fft is a plain radix-2 transform for the checks' own use.
func fft(re, im []float64) {
	n := len(re)
	for i, j := 1, 0; i < n; i++ {
		bit := n >> 1
		for ; j&bit != 0; bit >>= 1 {
			j ^= bit
		}
		j ^= bit
		if i < j {
			re[i], re[j] = re[j], re[i]
			im[i], im[j] = im[j], im[i]
		}
	}
	for l := 2; l <= n; l <<= 1 {
		for i := 0; i < n; i += l {
			for k := 0; k < l/2; k++ {
				c, s := math.Cos(2*math.Pi*float64(k)/float64(l)), -math.Sin(2*math.Pi*float64(k)/float64(l))
				a, b := i+k, i+k+l/2
				xr, xi := re[b]*c-im[b]*s, re[b]*s+im[b]*c
				re[b], im[b] = re[a]-xr, im[a]-xi
				re[a], im[a] = re[a]+xr, im[a]+xi
			}
		}
	}
}

func spectrum(t *T) {
	k := t.Int(0, 4, "type")
	ty := types[k]
	seed := int64(t.Int(0, 1000000, "seed"))
	t.Nontrivial(true)
	t.Desc("type=%d seed=%d", ty, seed)
	g := utility.NewNoiseGenerator(ty)
	g.SetSeed(seed)
	const N = 65536
	x := make([]float32, N)
	g.Generate(x)
	re, im := make([]float64, N), make([]float64, N)
	mean, pow := 0.0, 0.0
	for i, v := range x {
		mean += float64(v) / N
		pow += float64(v) * float64(v) / N
		re[i] = float64(v) * (0.5 - 0.5*math.Cos(2*math.Pi*float64(i)/N))
	}
	if pow < 1e-4 || pow > 0.6 {
		t.Fatalf("noise type %d seed %d has power %v", ty, seed, pow)
	}
	// (the slow rows of pink noise average out over far longer than this)
	lim := 0.1 * math.Sqrt(pow)
	if ty == utility.PinkNoise {
		lim = 0.35
	}
	if ty != utility.BrownNoise && !(math.Abs(mean) <= lim) {
		t.Fatalf("noise type %d seed %d has mean %v at RMS %v", ty, seed, mean, math.Sqrt(pow))
	}
	fft(re, im)
	// Mean power per bin in octaves, in dB; slope by least squares.
	var oct []float64
	lo, hi := 64, N/2
	for b := lo; b < hi; b *= 2 {
		s := 0.0
		for i := b; i < 2*b; i++ {
			s += re[i]*re[i] + im[i]*im[i]
		}
		oct = append(oct, 10*math.Log10(s/float64(b)))
	}
	slope := func(o []float64) float64 {
		n := float64(len(o))
		sx, sy, sxx, sxy := 0.0, 0.0, 0.0, 0.0
		for i, v := range o {
			x := float64(i)
			sx, sy, sxx, sxy = sx+x, sy+v, sxx+x*x, sxy+x*v
		}
		return (n*sxy - sx*sy) / (n*sxx - sx*sx)
	}
	got := 0.0
	want, tol := 0.0, 0.4
	switch ty {
	case utility.WhiteNoise:
		got = slope(oct)
	case utility.PinkNoise:
		got, want, tol = slope(oct), -3, 0.7
	case utility.BrownNoise: // above the leak's corner, below the top octave
		got, want, tol = slope(oct[1:8]), -6, 0.8
	case utility.BlueNoise: // first difference of white noise: +6 dB until it bends
		got, want, tol = slope(oct[:7]), 6, 0.8
	case utility.VioletNoise: // second difference
		got, want, tol = slope(oct[:7]), 12, 1.2
	}
	if !(math.Abs(got-want) <= tol) {
		t.Fatalf("noise type %d seed %d rises by %.2f dB per octave, expected %v (octaves %.1f)", ty, seed, got, want, oct)
	}
}

func gauss(t *T) {
	t.Nontrivial(true)
	g := utility.NewGaussianNoise()
	blk := t.Bool("block")
	sd := 0.3
	const N = 40000
	x := make([]float32, N)
	switch {
	case t.Int(0, 3, "white") == 0:
		utility.WhiteNoiseBuffer(x)
		for i := range x {
			if i%2 == 0 {
				x[i] = utility.WhiteNoiseSample()
			}
		}
		sd = 0
	case blk:
		g.Generate(x)
	default:
		for i := range x {
			x[i] = g.Next()
		}
	}
	t.Desc("block=%v sd=%v #%d", blk, sd, t.Int(0, 1<<20, "n"))
	m1, m2, m4, ac, in := 0.0, 0.0, 0.0, 0.0, 0.0
	for i, v := range x {
		f := float64(v)
		m1 += f / N
		m2 += f * f / N
		m4 += f * f * f * f / N
		if i > 0 {
			ac += f * float64(x[i-1]) / N
		}
		if math.Abs(f) <= 0.3 {
			in += 1.0 / N
		}
	}
	kurt, w2, wk, wi := m4/(m2*m2), sd*sd, 3.0, 0.6827
	if sd == 0 {
		w2, wk, wi = 1.0/3, 1.8, 0.3
	}
	if !(math.Abs(m1) <= 0.02) || !(math.Abs(m2-w2) <= 0.06*w2) || !(math.Abs(kurt-wk) <= 0.35) || !(math.Abs(ac) <= 0.06*w2) || !(math.Abs(in-wi) <= 0.02) {
		t.Fatalf("noise has mean %v, power %v (expected %v), kurtosis %v (expected %v), autocorrelation %v, %v within 0.3 (expected %v)", m1, m2, w2, kurt, wk, ac, in, wi)
	}
}

// center compares the mean of noise with its spread, after resets.
func center(t *T) {
	ty := Pick(t, "type", utility.PinkNoise, utility.PinkNoise, utility.WhiteNoise, utility.BlueNoise, utility.VioletNoise)
	g := utility.NewNoiseGenerator(ty)
	g.SetSeed(int64(t.Int(-1000000, 1000000, "seed")))
	t.Nontrivial(ty == utility.PinkNoise)
	t.Desc("type=%d:", ty)
	means, spread := 0.0, 0.0
	const n, runs = 1 << 17, 8
	for k := 0; k < runs; k++ {
		if t.Bool("reset") || k == 0 {
			g.Reset()
		} else {
			g = utility.NewNoiseGenerator(ty)
			g.SetSeed(int64(t.Int(-1000000, 1000000, "seed")))
		}
		s, q := 0.0, 0.0
		for i := 0; i < n; i++ {
			v := float64(g.Next())
			s += v
			q += v * v
		}
		m := s / n
		t.Desc(" %.3g", m)
		means += m * m / runs
		spread += (q/n - m*m) / runs
	}
	if r := math.Sqrt(means / spread); !(r < 0.75) {
		t.Fatalf("noise of type %d is off center by %v times its spread", ty, r)
	}
	if math.IsNaN(spread) || spread < 1e-6 {
		t.Fatalf("noise of type %d has a spread of %v", ty, spread)
	}
}
