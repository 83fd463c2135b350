// C24: transforms, windows, cross-correlation and the spectrum analyzer.
package main

import (
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C24",
		Subs: []Sub{
			{Name: "forward", Quick: 12000, Thorough: 200000, Fn: forward,
				Rule: "transforms of any size and window, one object used for several inputs shorter and longer than the size, real and complex, against the discrete Fourier sum; non-trivial: size of at least 8"},
			{Name: "large", Quick: 150, Thorough: 4000, Fn: large,
				Rule: "transforms and inverse transforms of up to 8192 points, powers of two and others, with drawn bins against the Fourier sum and the whole against the energy; non-trivial: more than 256 points"},
			{Name: "inverse", Quick: 21000, Thorough: 120000, Fn: inverse,
				Rule: "inverse transforms of arbitrary and short spectra against the inverse sum, and round trips; non-trivial: size of at least 8"},
			{Name: "windows", Quick: 20000, Thorough: 100000, Fn: windows,
				Rule: "every window of any size read off through impulses against its definition, symmetric and with its peak in the middle; non-trivial: size of at least 8"},
			{Name: "xcorr", Quick: 74000, Thorough: 370000, Fn: xcorr,
				Rule: "cross-correlations of signals of any length, delayed copies included, against the direct sum at each lag; non-trivial: length of at least 4"},
			{Name: "analyzer", Quick: 12000, Thorough: 200000, Fn: analyzer,
				Rule: "histories of blocks, hops, averaging, smoothing, frequency ranges and resets, all results read in between, against frames transformed by the Fourier sum; non-trivial: at least three frames"},
		},
		Assumptions: []string{"transform sizes of at least 2", "frequencies not within rounding of a bin border, except where the bin is exact"},
	})
}

const pi = math.Pi

// window is the value of window w of size n at i, by its textbook definition.
func window(w analysis.WindowFunc, i, n int) float64 {
	x := 2 * pi * float64(i) / float64(n-1)
	c := func(k float64) float64 { return math.Cos(k * x) }
	switch w {
	case analysis.HannWindow:
		return math.Pow(math.Sin(x/2), 2)
	case analysis.HammingWindow:
		return 0.54 - 0.46*c(1)
	case analysis.BlackmanWindow:
		return math.Max(0, 0.42-0.5*c(1)+0.08*c(2))
	case analysis.BlackmanHarrisWindow:
		return 0.35875 - 0.48829*c(1) + 0.14128*c(2) - 0.01168*c(3)
	case analysis.KaiserWindow:
		r := 2*float64(i)/float64(n-1) - 1
		return bessel(8.6*math.Sqrt(math.Max(0, 1-r*r))) / bessel(8.6)
	case analysis.FlatTopWindow:
		return math.Max(0, 0.21557895-0.41663158*c(1)+0.277263158*c(2)-0.083578947*c(3)+0.006947368*c(4))
	}
	return 1
}

func bessel(x float64) float64 {
	s, term := 1.0, 1.0
	for k := 1; k < 60; k++ {
		term *= x * x / 4 / float64(k*k)
		s += term
	}
	return s
}

var allWindows = []analysis.WindowFunc{analysis.RectangularWindow, analysis.HannWindow, analysis.HammingWindow,
	analysis.BlackmanWindow, analysis.BlackmanHarrisWindow, analysis.KaiserWindow, analysis.FlatTopWindow}

// dft is the discrete Fourier sum; dir -1 is forward.
func dft(x []complex128, dir float64) []complex128 {
	n := len(x)
	tw := make([]complex128, n)
	for i := range tw {
		tw[i] = cmplx.Rect(1, dir*2*pi*float64(i)/float64(n))
	}
	y := make([]complex128, n)
	for k := range y {
		for i := range x {
			y[k] += x[i] * tw[i*k%n]
		}
	}
	return y
}

func size(t *T) int {
	n := Pick(t, "size", 2, 4, 8, 16, 32, 64, 128, 256, 0, 0)
	if n == 0 {
		n = t.Int(2, 70, "any size")
	}
	return n
}

func values(t *T, n int, amp float64, label string) []float64 {
	s := t.Signal(n, amp, label)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64(s[i])
	}
	return x
}

func inputLen(t *T, n int) int {
	return Pick(t, "len", n, n, n, t.Int(0, n, "shorter"), n+t.Int(0, 20, "longer"))
}

func tol(x []complex128) float64 {
	s := 0.0
	for _, v := range x {
		s += cmplx.Abs(v)
	}
	return 1e-11*s + 1e-28
}

// tolerance of the Kaiser window, whose Bessel function is a fitted polynomial
func fit(w analysis.WindowFunc) float64 {
	if w == analysis.KaiserWindow {
		return 1e-6
	}
	return 1e-12
}

func forward(t *T) {
	n := size(t)
	w := allWindows[t.Int(0, 6, "window")]
	amp := Pick(t, "amp", 1.0, 1.0, 1e-7, 1e3)
	f := analysis.NewFFT(n, w)
	t.Nontrivial(n >= 8)
	for rep := t.Int(1, 3, "reps"); rep > 0; rep-- {
		x := values(t, inputLen(t, n), amp, "x")
		if t.Bool("complex") {
			y := values(t, len(x), amp, "y")
			in := make([]complex128, len(x))
			full := make([]complex128, n)
			for i := range in {
				in[i] = complex(x[i], y[i])
				if i < n {
					full[i] = in[i] * complex(window(w, i, n), 0)
				}
			}
			keep := Clone(in)
			got := f.ForwardComplex(in)
			want := dft(full, -1)
			e := tol(in) + fit(w)*tol(in)/1e-11
			if len(got) != n {
				t.Fatalf("complex spectrum of %d bins for size %d", len(got), n)
			}
			for k := range want {
				if !(cmplx.Abs(got[k]-want[k]) <= e) {
					t.Fatalf("size %d window %d: complex bin %d is %v, expected %v", n, w, k, got[k], want[k])
				}
			}
			for i := range in {
				if in[i] != keep[i] {
					t.Fatalf("the input was changed")
				}
			}
			continue
		}
		full := make([]complex128, n)
		for i := range x {
			if i < n {
				full[i] = complex(x[i]*window(w, i, n), 0)
			}
		}
		keep := Clone(x)
		mag, ph := f.Forward(x)
		want := dft(full, -1)
		all := make([]complex128, len(x))
		for i := range x {
			all[i] = complex(x[i], 0)
		}
		e := tol(all) + fit(w)*tol(all)/1e-11
		if len(mag) != n/2+1 || len(ph) != n/2+1 {
			t.Fatalf("spectrum of %d bins for size %d", len(mag), n)
		}
		db := f.GetMagnitudeDB()
		pw := analysis.PowerSpectrum(mag)
		for k := range mag {
			if !(cmplx.Abs(cmplx.Rect(mag[k], ph[k])-want[k]) <= e) {
				t.Fatalf("size %d window %d: bin %d is %v at angle %v, expected %v", n, w, k, mag[k], ph[k], want[k])
			}
			if !(mag[k] >= 0) || !(math.Abs(ph[k]) <= pi) {
				t.Fatalf("bin %d is %v at angle %v", k, mag[k], ph[k])
			}
			if !(math.Abs(db[k]-math.Max(-120, DB(mag[k]))) <= 1e-9) {
				t.Fatalf("magnitude %v is %v dB", mag[k], db[k])
			}
			if !Close(pw[k], mag[k]*mag[k], 0, 1e-12) {
				t.Fatalf("magnitude %v has power %v", mag[k], pw[k])
			}
		}
		for i := range x {
			if x[i] != keep[i] {
				t.Fatalf("the input was changed")
			}
		}
		sr := t.Rate("sr")
		k := t.Int(0, n/2, "bin")
		if fr := f.GetFrequencyBin(k, sr); !Close(fr, float64(k)*sr/float64(n), 0, 1e-12) {
			t.Fatalf("bin %d of %d at %v is %v Hz", k, n, sr, fr)
		}
	}
}

func inverse(t *T) {
	n := size(t)
	f := analysis.NewFFT(n, analysis.RectangularWindow)
	t.Nontrivial(n >= 8)
	for rep := t.Int(1, 3, "reps"); rep > 0; rep-- {
		if t.Bool("round trip") {
			x := values(t, n, 1, "x")
			in := make([]complex128, n)
			for i := range x {
				in[i] = complex(x[i], 0)
			}
			spec := f.ForwardComplex(in)
			re, im := make([]float64, n), make([]float64, n)
			for i, c := range spec {
				re[i], im[i] = real(c), imag(c)
			}
			got := f.Inverse(re, im)
			for i := range x {
				if !(math.Abs(got[i]-x[i]) <= 1e-11*float64(n)) {
					t.Fatalf("size %d: sample %d is %v after the round trip, was %v", n, i, got[i], x[i])
				}
			}
			continue
		}
		re := values(t, t.Int(0, n, "re len"), 1, "re")
		im := values(t, Pick(t, "im len", len(re), t.Int(0, n, "im any")), 1, "im")
		full := make([]complex128, n)
		for i := range full {
			var a, b float64
			if i < len(re) {
				a = re[i]
			}
			if i < len(im) {
				b = im[i]
			}
			full[i] = complex(a, b)
		}
		kr, ki := Clone(re), Clone(im)
		got := f.Inverse(re, im)
		want := dft(full, 1)
		if len(got) != n {
			t.Fatalf("%d samples for size %d", len(got), n)
		}
		for i := range got {
			if w := real(want[i]) / float64(n); !(math.Abs(got[i]-w) <= tol(full)) {
				t.Fatalf("size %d: inverse sample %d is %v, expected %v", n, i, got[i], w)
			}
		}
		for i := range re {
			if re[i] != kr[i] {
				t.Fatalf("the spectrum was changed")
			}
		}
		for i := range im {
			if im[i] != ki[i] {
				t.Fatalf("the spectrum was changed")
			}
		}
	}
}

func windows(t *T) {
	n := size(t)
	w := allWindows[t.Int(0, 6, "window")]
	f := analysis.NewFFT(n, w)
	t.Nontrivial(n >= 8)
	for rep := 0; rep < 4; rep++ {
		i := t.Int(0, n-1, "pos")
		x := make([]float64, n)
		x[i] = 1
		mag, ph := f.Forward(x)
		got := mag[0] * math.Cos(ph[0])
		if want := window(w, i, n); !(math.Abs(got-want) <= fit(w)+1e-12) {
			t.Fatalf("window %d of size %d at %d is %v, expected %v", w, n, i, got, want)
		}
	}
	x := values(t, t.Int(2, 100, "hann len"), 1, "x")
	y := analysis.ApplyHannWindow(x)
	if len(y) != len(x) {
		t.Fatalf("%d windowed samples of %d", len(y), len(x))
	}
	for i := range y {
		if !(math.Abs(y[i]-x[i]*window(analysis.HannWindow, i, len(x))) <= 1e-12) {
			t.Fatalf("windowed sample %d of %d is %v of %v", i, len(x), y[i], x[i])
		}
	}
}

func xcorr(t *T) {
	n := Pick(t, "n", t.Int(0, 4, "tiny"), t.Int(4, 40, "small"), t.Int(40, 200, "large"))
	a := values(t, n, 1, "a")
	b := values(t, n, 1, "b")
	if t.Bool("delayed copy") && n > 0 {
		d := t.Int(-n, n, "delay")
		for i := range b {
			b[i] = 0
			if j := i - d; j >= 0 && j < n {
				b[i] = a[j]
			}
		}
		t.Desc(" b is a delayed by %d", d)
	}
	t.Nontrivial(n >= 4)
	ka, kb := Clone(a), Clone(b)
	got := analysis.CrossCorrelation(a, b)
	want := 0
	if n > 0 {
		want = 2*n - 1
	}
	if len(got) != want {
		t.Fatalf("%d lags for %d samples", len(got), n)
	}
	for lag := -(n - 1); lag <= n-1; lag++ {
		s := 0.0
		for i := range a {
			if j := i + lag; j >= 0 && j < n {
				s += a[i] * b[j]
			}
		}
		if g := got[lag+n-1]; !(math.Abs(g-s) <= 1e-11*float64(n+1)) {
			t.Fatalf("correlation of %d samples at lag %d is %v, expected %v", n, lag, g, s)
		}
	}
	for i := range a {
		if a[i] != ka[i] || b[i] != kb[i] {
			t.Fatalf("the input was changed")
		}
	}
}

type model struct {
	n        int
	w        analysis.WindowFunc
	sr       float64
	buf      []float64
	hop      int
	mode     analysis.AveragingMode
	smooth   float64
	hist     [][]float64
	histSize int
	out      []float64
	lo, hi   float64
	frames   int
}

func (m *model) process(x []float64) bool {
	ready := false
	for _, v := range x {
		m.buf = append(m.buf, v)
		if len(m.buf) < m.n {
			continue
		}
		full := make([]complex128, m.n)
		for i := range full {
			full[i] = complex(m.buf[i]*window(m.w, i, m.n), 0)
		}
		spec := dft(full, -1)
		mag := make([]float64, len(m.out))
		for i := range mag {
			mag[i] = cmplx.Abs(spec[i])
		}
		switch m.mode {
		case analysis.NoAveraging:
			copy(m.out, mag)
		case analysis.ExponentialAveraging:
			for i := range mag {
				m.out[i] = m.smooth*m.out[i] + (1-m.smooth)*mag[i]
			}
		case analysis.LinearAveraging:
			m.hist = append(m.hist, mag)
			if len(m.hist) > m.histSize {
				m.hist = m.hist[1:]
			}
			for i := range mag {
				m.out[i] = 0
				for _, h := range m.hist {
					m.out[i] += h[i] / float64(len(m.hist))
				}
			}
		case analysis.PeakHold:
			for i := range mag {
				m.out[i] = math.Max(m.out[i], mag[i])
			}
		}
		m.buf = append([]float64(nil), m.buf[m.hop:]...)
		ready = true
		m.frames++
	}
	return ready
}

// freq draws a frequency away from the borders of the bins.
func freq(t *T, m *model, from float64, label string) float64 {
	b := t.U(from, float64(m.n)/2+2, label)
	if d := b - math.Round(b); math.Abs(d) < 1e-3 {
		b += 0.25
	}
	return b * m.sr / float64(m.n)
}

func (m *model) bin(f float64) int { return int(f * float64(m.n) / m.sr) }

func analyzer(t *T) {
	m := &model{n: Pick(t, "size", 4, 8, 16, 32, t.Size(64, 64, 400, "larger"), t.Int(1, 20, "odd")*2+1), w: allWindows[t.Int(0, 6, "window")], sr: t.Rate("sr")}
	m.hop, m.smooth, m.hi, m.lo = m.n/2, 0.9, m.sr/2, 20
	m.out = make([]float64, m.n/2+1)
	a := analysis.NewSpectrumAnalyzer(m.n, m.sr, m.w)
	t.Desc("size %d window %d at %v:", m.n, m.w, m.sr)
	e := 1e-9
	if m.w == analysis.KaiserWindow {
		e = 1e-5
	}
	eq := func(g, w float64) bool { return math.Abs(g-w) <= e*(1+math.Abs(w)) }
	var held, heldWas []float64
	steps := t.Int(2, 12, "steps")
	for s := 0; s < steps; s++ {
		switch t.Int(0, 9, "op") {
		case 0:
			h := t.Int(-1, m.n+2, "hop")
			a.SetHopSize(h)
			if h > 0 && h <= m.n {
				m.hop = h
			}
			t.Desc(" hop %d", h)
		case 1:
			mode := analysis.AveragingMode(t.Int(0, 3, "mode"))
			k := t.Size(1, 5, 300, "frames")
			if t.Int(0, 2, "no size") == 0 {
				k = Pick(t, "none", 0, 0, -1)
			}
			a.SetAveraging(mode, k)
			m.mode = mode
			if mode != analysis.NoAveraging && (k > 0 || m.histSize == 0) {
				m.hist, m.histSize = nil, max(k, 1)
			}
			t.Desc(" averaging %d,%d", mode, k)
		case 2:
			v := Pick(t, "sm", t.U(-0.2, 1.2, "smoothing"), t.U(-0.2, 1.2, "smoothing2"), 0, 1)
			a.SetSmoothing(v)
			if v >= 0 && v <= 1 {
				m.smooth = v
			}
			t.Desc(" smoothing %v", v)
		case 3:
			lo, hi := t.Keep(freq(t, m, -2, "lo"), m.lo, "lo"), t.Keep(freq(t, m, 0.1, "hi"), m.hi, "hi")
			a.SetFrequencyRange(lo, hi)
			m.lo, m.hi = math.Max(0, lo), math.Min(m.sr/2, hi)
			t.Desc(" range %v..%v", lo, hi)
		case 4:
			if t.Bool("really") {
				a.Reset()
				m.buf, m.hist = nil, nil
				for i := range m.out {
					m.out[i] = 0
				}
				t.Desc(" reset")
			}
		default:
			x := values(t, t.Size(0, 3*m.n, 20000, "block"), 1, "x")
			if g, w := a.Process(x), m.process(x); g != w {
				t.Fatalf("a new spectrum after %d samples: %v, expected %v", len(x), g, w)
			}
		}
		if held != nil {
			for i, v := range held {
				if v != heldWas[i] {
					t.Fatalf("bin %d of an earlier spectrum has changed from %v to %v", i, heldWas[i], v)
				}
			}
		}
		got := a.GetSpectrum()
		held, heldWas = got, Clone(got)
		if len(got) != len(m.out) {
			t.Fatalf("%d bins for size %d", len(got), m.n)
		}
		db := a.GetSpectrumDB()
		for i := range got {
			if !eq(got[i], m.out[i]) {
				t.Fatalf("frame %d: bin %d is %v, expected %v", m.frames, i, got[i], m.out[i])
			}
			if !(math.Abs(db[i]-math.Max(-120, DB(got[i]))) <= 1e-9) {
				t.Fatalf("magnitude %v is %v dB", got[i], db[i])
			}
		}
		// the configured range, both ends included
		first, last := m.bin(m.lo), min(m.bin(m.hi), m.n/2)
		if m.hi == m.sr/2 { // the last bin
			last = m.n / 2
		}
		if m.hi < 0 {
			last = -1
		}
		rng, rdb := a.GetSpectrumInRange(), a.GetSpectrumDBInRange()
		count := max(0, last-first+1)
		if len(rng) != count || len(rdb) != count {
			t.Fatalf("%d and %d bins in the range %v..%v at %v, size %d, expected %d", len(rng), len(rdb), m.lo, m.hi, m.sr, m.n, count)
		}
		peak := 0.0
		for i := range rng {
			if rng[i] != got[first+i] || rdb[i] != db[first+i] {
				t.Fatalf("bin %d of the range is %v or %v dB, the spectrum has %v or %v dB", i, rng[i], rdb[i], got[first+i], db[first+i])
			}
			peak = math.Max(peak, rng[i])
		}
		pf, pm := a.GetPeakFrequency()
		if !eq(pm, peak) {
			t.Fatalf("the peak is %v, expected %v", pm, peak)
		}
		if peak == 0 && pf != 0 {
			t.Fatalf("silence has its peak at %v Hz", pf)
		}
		if peak > 1e-3 {
			k := int(math.Round(pf * float64(m.n) / m.sr))
			if k < first || k > last || !eq(got[k], peak) || !Close(pf, float64(k)*m.sr/float64(m.n), 0, 1e-9) {
				t.Fatalf("the peak is at %v Hz (bin %d), in the range %d..%d", pf, k, first, last)
			}
		}
		// bands
		lo, hi := freq(t, m, -2, "band lo"), freq(t, m, 0.1, "band hi")
		sum := 0.0
		for i := max(0, m.bin(lo)); i <= min(m.bin(hi), m.n/2); i++ {
			sum += got[i] * got[i]
		}
		if g := a.GetBandEnergy(lo, hi); !Close(g, sum, 1e-12, 1e-9) {
			t.Fatalf("energy of %v..%v Hz is %v, expected %v", lo, hi, g, sum)
		}
		c := t.U(0.3, float64(m.n), "center") * m.sr / float64(m.n)
		fl, fh := c/math.Sqrt2*float64(m.n)/m.sr, c*math.Sqrt2*float64(m.n)/m.sr
		if math.Abs(fl-math.Round(fl)) > 1e-6 && math.Abs(fh-math.Round(fh)) > 1e-6 {
			sum, cnt := 0.0, 0
			for i := int(fl); i <= int(fh) && i <= m.n/2; i++ {
				sum += got[i] * got[i]
				cnt++
			}
			want := 0.0
			if cnt > 0 {
				want = math.Sqrt(sum / float64(cnt))
			}
			if g := a.GetOctaveBands([]float64{c, c}); len(g) != 2 || !Close(g[0], want, 1e-12, 1e-9) || g[1] != g[0] {
				t.Fatalf("octave around %v Hz is %v, expected %v", c, g, want)
			}
		}
		cs, ratio := analysis.StandardOctaveBands(), 2.0
		if t.Bool("third") {
			cs, ratio = analysis.StandardThirdOctaveBands(), math.Cbrt(2)
		}
		all := a.GetOctaveBands(cs)
		has1k := false
		for i, c := range cs {
			has1k = has1k || math.Abs(c-1000) < 1
			// nominal band centres are up to 1% off the exact ones
			k := math.Round(math.Log(c/1000) / math.Log(ratio))
			if c < 20 || c > 20000 || i > 0 && math.Abs(c/cs[i-1]/ratio-1) > 0.02 || math.Abs(c/(1000*math.Pow(ratio, k))-1) > 0.015 {
				t.Fatalf("standard bands %v", cs)
			}
			if one := a.GetOctaveBands(cs[i : i+1]); all[i] != one[0] {
				t.Fatalf("band %v Hz is %v among all, %v alone", c, all[i], one[0])
			}
		}
		if len(all) != len(cs) || !has1k || cs[0] > 32*ratio || cs[len(cs)-1] < 20000/ratio/1.02 {
			t.Fatalf("standard bands %v", cs)
		}
		// bins and frequencies
		k := t.Int(0, m.n/2, "bin")
		f := a.GetFrequencyForBin(k)
		if !Close(f, float64(k)*m.sr/float64(m.n), 0, 1e-12) {
			t.Fatalf("bin %d of %d at %v is %v Hz", k, m.n, m.sr, f)
		}
		if b := a.GetBinForFrequency(f + 0.3*m.sr/float64(m.n)); b != k {
			t.Fatalf("a frequency in bin %d is in bin %d", k, b)
		}
		if m.n&(m.n-1) == 0 && a.GetBinForFrequency(f) != k {
			t.Fatalf("the frequency of bin %d is in bin %d", k, a.GetBinForFrequency(f))
		}
	}
	t.Nontrivial(m.frames >= 3)
}

func large(t *T) {
	n := Pick(t, "size", 512, 1024, 2048, 4096, 8192, 0)
	if n == 0 {
		n = t.Int(300, 1500, "any size")
	}
	w := allWindows[t.Int(0, 6, "window")]
	f := analysis.NewFFT(n, w)
	x := values(t, n, 1, "x")
	t.Nontrivial(n > 256)
	t.Desc("size %d window %d", n, w)
	in := make([]complex128, n)
	var scale, energy float64
	for i, v := range x {
		in[i] = complex(v*window(w, i, n), 0)
		scale += math.Abs(v)
	}
	mag, ph := f.Forward(x)
	mag, ph = Clone(mag), Clone(ph)
	got := f.ForwardComplex(toComplex(x))
	e := 1e-10*scale + 1e-12
	if w == analysis.KaiserWindow {
		e += 1e-6 * scale
	}
	for c := 0; c < 12; c++ {
		k := Pick(t, "bin", 0, n/2, n-1, t.Int(0, n-1, "k"))
		var want complex128
		for i, v := range in {
			s, c := math.Sincos(-2 * math.Pi * float64(i*k%n) / float64(n))
			want += v * complex(c, s)
		}
		if !(cmplx.Abs(got[k]-want) <= e) {
			t.Fatalf("complex bin %d of %d is %v, expected %v", k, n, got[k], want)
		}
		if k <= n/2 && !(cmplx.Abs(cmplx.Rect(mag[k], ph[k])-want) <= e) {
			t.Fatalf("bin %d of %d is %v at %v, expected %v", k, n, mag[k], ph[k], want)
		}
	}
	re, im := make([]float64, n), make([]float64, n)
	var total float64
	for i, v := range got {
		re[i], im[i] = real(v), imag(v)
		total += re[i]*re[i] + im[i]*im[i]
		energy += real(in[i]) * real(in[i])
	}
	if w != analysis.KaiserWindow && !Close(total/float64(n), energy, 1e-12, 1e-9) {
		t.Fatalf("the spectrum of %d points has energy %v, the signal %v", n, total/float64(n), energy)
	}
	for i, v := range f.Inverse(re, im) {
		if !(math.Abs(v-real(in[i])) <= 1e-9*(1+math.Abs(real(in[i])))+fit(w)) {
			t.Fatalf("sample %d of %d is %v after the round trip, expected %v", i, n, v, real(in[i]))
		}
	}
}

func toComplex(x []float64) []complex128 {
	y := make([]complex128, len(x))
	for i, v := range x {
		y[i] = complex(v, 0)
	}
	return y
}
