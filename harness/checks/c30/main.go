// C30: distortions apply exactly their shape to each channel.
package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C30",
		Subs: []Sub{
			{Name: "shaper", Quick: 52000, Thorough: 260000, Fn: shaper,
				Rule: "all curves at any drive, mix, output and asymmetry on samples from zero to the largest number, as samples, blocks and stereo, against their closed forms; non-trivial: a driven sample above 1"},
			{Name: "fold", Quick: 80000, Thorough: 400000, Fn: fold,
				Rule: "folding at any threshold: within the threshold, period of four thresholds, ends for every input; non-trivial: more than two folds"},
			{Name: "crusher", Quick: 9800, Thorough: 150000, Fn: crusher,
				Rule: "histories of depth, rate reduction, anti-aliasing, mix and output changes, mono, block and stereo runs and resets against quantizer, hold and filter per channel; non-trivial: reduced rate or depth below 16 bits"},
			{Name: "dither", Quick: 1000, Thorough: 15000, Fn: dither,
				Rule: "dithered constants: on the grid, within a step and a half, mean equal to the input, the same after a reset and next to other instances; non-trivial: input off the grid"},
			{Name: "tube", Quick: 12000, Thorough: 150000, Fn: tube,
				Rule: "histories of setting changes, mono, block and stereo runs and resets against one chain of filters, hysteresis and transfer curves per channel; non-trivial: stereo"},
			{Name: "tape", Quick: 8100, Thorough: 150000, Fn: tape,
				Rule: "the same for the tape, within the level of its hiss, and within the range of the recent samples with flutter; non-trivial: stereo"},
			{Name: "flutter", Quick: 560, Thorough: 2800, Fn: flutter,
				Rule: "slow ramps through the flutter: the delay swings around its center by the set depth, 0.3 to 0.5 times a second in mono and stereo, equally in both channels; non-trivial: every case"},
			{Name: "helpers", Quick: 120000, Thorough: 600000, Fn: helpers,
				Rule: "sigmoid, polynomials, Chebyshev polynomials, step quantizer and gate against their definitions; non-trivial: order above 2"},
		},
		Assumptions: []string{"hiss and flutter jitter are random, so their values are bounded rather than predicted"},
	})
}

func clamp(v, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, v)) }

func curve(c distortion.CurveType, x, asym float64) float64 {
	switch c {
	case distortion.CurveHardClip:
		return clamp(x, -1, 1)
	case distortion.CurveSoftClip:
		return math.Tanh(x)
	case distortion.CurveSaturate:
		return math.Atan(x*math.Pi/2) * 2 / math.Pi
	case distortion.CurveFoldback:
		return triangle(x, 1)
	case distortion.CurveAsymmetric:
		if x < 0 {
			return math.Tanh(x * (1 - asym))
		}
		return math.Tanh(x * (1 + asym))
	case distortion.CurveSine:
		return math.Sin(clamp(x, -1, 1) * math.Pi / 2)
	case distortion.CurveExponential:
		if math.Abs(x) > 1 {
			return math.Copysign(1, x)
		}
		return math.Copysign(1-math.Exp(-3*math.Abs(x)), x)
	}
	return x
}

// triangle folds x into [-th, th].
func triangle(x, th float64) float64 {
	p := math.Mod(x/th, 4)
	if p < 0 {
		p += 4
	}
	switch {
	case p <= 1:
		return p * th
	case p <= 3:
		return (2 - p) * th
	}
	return (p - 4) * th
}

func sample(t *T, label string) float64 {
	v := Pick(t, label+".kind", t.U(-1, 1, label), t.U(-1, 1, label), t.U(-5, 5, label), t.LogU(1e-9, 1e6, label), 0, 1, -1, 0.5)
	if t.Bool(label + ".neg") {
		v = -v
	}
	return v
}

func samples(t *T, n int, label string) []float64 {
	amp := Pick(t, label+".amp", 0.3, 1, 1, 4)
	s := t.Signal(n, amp, label)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64(s[i])
	}
	if t.Int(0, 3, label+".grid") == 0 { // exact fractions, which meet every border
		for i := range x {
			x[i] = math.Round(x[i]*64) / 64
		}
	}
	return x
}

func shaper(t *T) {
	w := distortion.NewWaveshaper()
	c, drive, mix, out, asym := distortion.CurveSoftClip, 1.0, 1.0, 1.0, 0.0
	for ops := t.Size(1, 12, 72, "ops"); ops > 0; ops-- {
		switch t.Int(0, 8, "op") {
		case 0, 1:
			c = distortion.CurveType(t.Int(0, 7, "curve"))
			w.SetCurveType(c)
		case 2:
			v := Pick(t, "drive", 1.0, 100, t.LogU(0.3, 200, "d"))
			w.SetDrive(v)
			drive = clamp(v, 1, 100)
		case 3:
			v := t.U(-0.2, 1.2, "mix")
			w.SetMix(v)
			mix = clamp(v, 0, 1)
		case 4:
			v := t.U(-0.2, 2.5, "out")
			w.SetOutput(v)
			out = clamp(v, 0, 2)
		case 5:
			v := t.U(-1.2, 1.2, "asym")
			w.SetAsymmetry(v)
			asym = clamp(v, -1, 1)
		default:
			n := t.Int(1, 8, "n")
			x, y := make([]float64, n), make([]float64, n)
			a, b := make([]float64, n), make([]float64, n)
			for i := range x {
				x[i], y[i] = sample(t, "x"), sample(t, "y")
				if math.Abs(x[i]*drive) > 1 {
					t.Nontrivial(true)
				}
			}
			stereo := false
			kind := t.Int(0, 2, "run")
			t.Desc(" [c%d d%.4g m%.3g o%.3g a%.3g run%d]%.6g", c, drive, mix, out, asym, kind, x)
			switch kind {
			case 0:
				for i := range x {
					a[i] = w.Process(x[i])
				}
			case 1:
				w.ProcessBlock(x, a)
			default:
				w.ProcessStereo(x, y, a, b)
				stereo = true
			}
			for i := range x {
				cmp := func(in, got float64) {
					k := (curve(c, in*drive, asym)*mix + in*(1-mix)) * out
					tol := 1e-9*math.Max(1, math.Abs(in)) + 1e-14*math.Abs(in*drive)
					if !(math.Abs(got-k) <= tol) {
						t.Fatalf("curve %d, drive %v, mix %v, output %v, asymmetry %v: %v becomes %v, expected %v", c, drive, mix, out, asym, in, got, k)
					}
				}
				cmp(x[i], a[i])
				if stereo {
					cmp(y[i], b[i])
				}
			}
		}
	}
}

func fold(t *T) {
	th := Pick(t, "th", 1.0, 0.5, t.LogU(1e-6, 100, "thv"), 0, -1)
	x := Pick(t, "x", t.U(-1, 1, "u")*th*10, sample(t, "s"), math.Inf(1), math.Inf(-1), 1e300, -math.MaxFloat64)
	t.Desc("fold %v at %v", x, th)
	w := distortion.NewWaveshaper()
	w.SetCurveType(distortion.CurveFoldback)
	if v := w.Process(x); !(math.Abs(v) <= 1) && !math.IsInf(x, 0) {
		t.Fatalf("folding %v gives %v", x, v)
	}
	v := distortion.FoldbackDistortion(x, th)
	if th <= 0 {
		if v != 0 {
			t.Fatalf("folding %v at %v gives %v", x, th, v)
		}
		return
	}
	t.Nontrivial(math.Abs(x) > 5*th)
	if !(math.Abs(v) <= th) {
		t.Fatalf("folding %v at %v gives %v", x, th, v)
	}
	if math.Abs(x) < 1e6*th && !(math.Abs(v-triangle(x, th)) <= 1e-9*math.Max(th, math.Abs(x))) {
		t.Fatalf("folding %v at %v gives %v, expected %v", x, th, v, triangle(x, th))
	}
}

// quant is the quantizer; it returns both neighbours when the input is within
// rounding of a border, unless the numbers are exact.
func quant(x, bits float64, exact bool) (a, b float64) {
	if bits >= 32 {
		return x, x
	}
	l := math.Pow(2, bits)
	s := x * l / 2
	e := 1e-9 * math.Max(1, math.Abs(s))
	if exact && bits == math.Floor(bits) {
		e = 0
	}
	return clamp(math.Round(s-e)*2/l, -1, 1), clamp(math.Round(s+e)*2/l, -1, 1)
}

func crusher(t *T) {
	sr := t.Rate("sr")
	b := distortion.NewBitcrusher(sr)
	bits, factor, aa, mix, out := 16.0, 1.0, true, 1.0, 1.0
	var filter, count, held [2]float64
	model := func(x float64, c int) (lo, hi float64) {
		y := x
		if factor > 1 {
			if aa {
				om := 2 * math.Pi * 0.45 / factor
				alpha := 1.0
				if om < math.Pi/2 {
					alpha = math.Sin(om) / (math.Sin(om) + math.Cos(om))
				}
				filter[c] += alpha * (y - filter[c])
				y = filter[c]
			}
			if count[c] <= 0 {
				held[c] = y
				count[c] += factor
			}
			count[c]--
			y = held[c]
		}
		lo, hi = quant(y, bits, factor <= 1 || !aa)
		return (lo*mix + x*(1-mix)) * out, (hi*mix + x*(1-mix)) * out
	}
	t.Desc("crusher at %v", sr)
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		switch t.Int(0, 9, "op") {
		case 0:
			v := Pick(t, "bits", 1.0, 8, 16, 32, 40, float64(t.Int(1, 6, "few")), t.U(0, 24, "b"), t.U(20, 33, "fine"))
			b.SetBitDepth(v)
			bits = clamp(v, 1, 32)
		case 1:
			v := Pick(t, "factor", 1.0, 2, 3, 100, float64(t.Int(32, 640, "f"))/64, float64(t.Int(32, 200, "g"))/64)
			b.SetSampleRateReduction(v)
			factor = clamp(v, 1, 100)
		case 2:
			aa = t.Bool("aa")
			b.SetAntiAlias(aa)
		case 3:
			v := t.U(-0.2, 1.2, "mix")
			b.SetMix(v)
			mix = clamp(v, 0, 1)
		case 4:
			v := t.U(-0.2, 2.5, "out")
			b.SetOutput(v)
			out = clamp(v, 0, 2)
		case 5:
			b.Reset()
			filter, count, held = [2]float64{}, [2]float64{}, [2]float64{}
			t.Desc(" reset")
		default:
			t.Nontrivial(factor > 1 || bits < 16)
			t.Desc(" [%.4g bits /%.4g aa:%v m%.3g o%.3g]", bits, factor, aa, mix, out)
			n := t.Size(1, 80, 20000, "n")
			x, y := samples(t, n, "l"), samples(t, n, "r")
			a, c := make([]float64, n), make([]float64, n)
			stereo := false
			switch t.Int(0, 2, "run") {
			case 0:
				for i := range x {
					a[i] = b.Process(x[i])
				}
			case 1:
				b.ProcessBlock(x, a)
			default:
				b.ProcessStereo(x, y, a, c)
				stereo = true
			}
			for i := range x {
				lo, hi := model(x[i], 0)
				if !(a[i] >= lo-1e-9 && a[i] <= hi+1e-9) {
					t.Fatalf("left sample %d of %v is %v, expected %v", i, x[i], a[i], lo)
				}
				if stereo {
					lo, hi := model(y[i], 1)
					if !(c[i] >= lo-1e-9 && c[i] <= hi+1e-9) {
						t.Fatalf("right sample %d of %v is %v, expected %v", i, y[i], c[i], lo)
					}
				}
			}
		}
	}
}

func dither(t *T) {
	mk := func() *distortion.Bitcrusher { return distortion.NewBitcrusher(44100) }
	bits := Pick(t, "bits", 4.0, 8, 12, 16, t.U(3, 16, "b"))
	kind := Pick(t, "kind", distortion.DitherWhite, distortion.DitherTriangular)
	step := 2 / math.Pow(2, bits)
	x := clamp(Pick(t, "x", 0, t.U(-0.7, 0.7, "v"), float64(t.Int(-3, 3, "k"))*step/4), -0.7, 0.7)
	a, b := mk(), mk()
	for _, v := range []*distortion.Bitcrusher{a, b} {
		v.SetBitDepth(bits)
		v.SetDither(kind)
	}
	n := 8192
	ya := make([]float64, n)
	t.Desc("dither %d, %v bits, %v", kind, bits, x)
	t.Nontrivial(math.Abs(math.Remainder(x, step)) > step/100)
	var sum float64
	seen := map[float64]int{}
	for i := range ya {
		ya[i] = a.Process(x)
		if w := b.Process(x); w != ya[i] {
			t.Fatalf("sample %d: two instances give %v and %v", i, ya[i], w)
		}
		y := ya[i]
		if !(math.Abs(y-x) <= 1.5*step*(1+1e-6)) {
			t.Fatalf("sample %d: %v becomes %v, %v steps away", i, x, y, (y-x)/step)
		}
		if !(math.Abs(y/step-math.Round(y/step)) <= 1e-6) {
			t.Fatalf("sample %d: %v is not on the grid of %v", i, y, step)
		}
		sum += y - x
		seen[y]++
	}
	if !(math.Abs(sum/float64(n)) <= 0.08*step) {
		t.Fatalf("the mean of dithered %v is off by %v steps", x, sum/float64(n)/step)
	}
	if len(seen) < 2 {
		t.Fatalf("no dither: always %v", ya[0])
	}
	a.Reset()
	for i := 0; i < 50; i++ {
		if v := a.Process(x); v != ya[i] {
			t.Fatalf("sample %d after a reset is %v, a fresh instance gave %v", i, v, ya[i])
		}
	}
}

type tubeState struct{ pre, de, in, out float64 }

func tube(t *T) {
	s := distortion.NewTubeSaturation()
	warm, harm, bias, hyst, mix, out := 0.5, 0.5, 0.0, 0.1, 1.0, 1.0
	var st [2]tubeState
	model := func(x float64, c int) float64 {
		p := &st[c]
		hp := x - p.pre
		p.pre += hp * (0.1 + 0.4*warm)
		e := x + hp*warm*0.5 + bias*0.1
		k := 0.5
		if e-p.in > 0 {
			k = 0.3
		}
		p.in = e
		p.out += (e - p.out) * (1 - hyst*k)
		v := p.out
		even := 0.0
		if v >= 0 {
			even = v - 0.1*v*v + 0.05*math.Pow(v, 4)
		} else {
			even = v + 0.15*v*v - 0.08*math.Pow(v, 4)
		}
		odd := v - 0.15*v*v*v + 0.05*math.Pow(v, 5)
		z := even*(1-harm/2) + odd*harm/2
		if m := math.Abs(z); m > 0.7 {
			d := m - 0.7
			g := 1.0 / 3
			if d < 0.1 {
				g = 1 - d*d/0.01*2/3
			}
			z = math.Copysign(0.7+d*g, z)
		}
		p.de += (z - p.de) * (0.9 - 0.6*warm)
		return (p.de*mix + x*(1-mix)) * out
	}
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		op := t.Int(0, 9, "op")
		v := t.U(-0.2, 1.2, fmt.Sprint("v", op))
		switch op {
		case 0:
			s.SetWarmth(v)
			warm = clamp(v, 0, 1)
		case 1:
			s.SetHarmonics(v)
			harm = clamp(v, 0, 1)
		case 2:
			v = v*2 - 1
			s.SetBias(v)
			bias = clamp(v, -1, 1)
		case 3:
			s.SetHysteresis(v)
			hyst = clamp(v, 0, 1)
		case 4:
			s.SetMix(v)
			mix = clamp(v, 0, 1)
		case 5:
			s.SetOutput(v * 2)
			out = clamp(v*2, 0, 2)
		case 6:
			s.Reset()
			st = [2]tubeState{}
			t.Desc(" reset")
		default:
			t.Desc(" [w%.3g h%.3g b%.3g y%.3g m%.3g o%.3g]", warm, harm, bias, hyst, mix, out)
			runDouble(t, s.Process, s.ProcessBlock, s.ProcessStereo, func(x float64, c int) (float64, float64) {
				y := model(x, c)
				e := 1e-6 * math.Max(1, math.Abs(y))
				return y - e, y + e
			})
		}
	}
}

// runDouble processes a drawn stretch and compares with bounds per sample.
func runDouble(t *T, one func(float64) float64, block func(in, out []float64), stereo func(l, r, ol, or []float64), model func(x float64, c int) (lo, hi float64)) {
	n := t.Size(1, 60, 20000, "n")
	x, y := samples(t, n, "l"), samples(t, n, "r")
	a, b := make([]float64, n), make([]float64, n)
	two := false
	switch t.Int(0, 3, "run") {
	case 0:
		for i := range x {
			a[i] = one(x[i])
		}
	case 1:
		block(x, a)
	default:
		stereo(x, y, a, b)
		two = true
		t.Nontrivial(true)
	}
	for i := range x {
		lo, hi := model(x[i], 0)
		if !(a[i] >= lo && a[i] <= hi) {
			t.Fatalf("left sample %d is %v, expected %v to %v (stereo: %v)", i, a[i], lo, hi, two)
		}
		if two {
			lo, hi := model(y[i], 1)
			if !(b[i] >= lo && b[i] <= hi) {
				t.Fatalf("right sample %d is %v, expected %v to %v", i, b[i], lo, hi)
			}
		}
	}
}

type tapeState struct {
	pre, env, lo, hi float64
	hist             []float64
}

func tape(t *T) {
	s := distortion.NewTapeSaturation(Pick(t, "low", 1000.0, 1600, 4000, t.Rate("sr"), t.Rate("sr2")))
	sat, comp, flut, warm, mix, out := 0.5, 0.5, 0.0, 0.5, 1.0, 1.0
	var st [2]tapeState
	model := func(x float64, c int) (float64, float64) {
		p := &st[c]
		hp := x - p.pre
		p.pre += hp * (0.15 + 0.1*warm)
		e := x + hp*warm*0.3
		if m := math.Abs(e); m > p.env {
			p.env += (m - p.env) * 0.01
		} else {
			p.env += (m - p.env) * 0.1
		}
		if p.env > 0.5 {
			e *= (0.5 + (p.env-0.5)/(2+3*comp)) / p.env
		}
		d := e * (1 + 4*sat)
		l := clamp(d, -math.Sqrt(10.0/3), math.Sqrt(10.0/3))
		v := 0.8*math.Tanh(0.7*d) + 0.2*sat*(l-0.1*l*l*l)
		lo, hi := v, v
		if flut >= 0.01 {
			p.hist = append(p.hist, v)
			reach := int(math.Ceil(5 + 3.9*flut))
			near := int(math.Floor(5-3.9*flut)) - 1
			lo, hi = math.Inf(1), math.Inf(-1)
			for k := near; k <= reach; k++ {
				w := 0.0
				if i := len(p.hist) - 1 - k; k >= 0 && i >= 0 {
					w = p.hist[i]
				} else if k < 0 {
					continue
				}
				lo, hi = math.Min(lo, w), math.Max(hi, w)
			}
		}
		hiss := 1e-4*sat + 1e-9
		k := 0.8 - 0.5*warm
		p.lo += (lo - hiss - p.lo) * k
		p.hi += (hi + hiss - p.hi) * k
		return (p.lo*mix+x*(1-mix))*out - 1e-9, (p.hi*mix+x*(1-mix))*out + 1e-9
	}
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		op := t.Int(0, 10, "op")
		v := t.U(-0.2, 1.2, fmt.Sprint("v", op))
		switch op {
		case 0:
			s.SetSaturation(v)
			sat = clamp(v, 0, 1)
		case 1:
			s.SetCompression(v)
			comp = clamp(v, 0, 1)
		case 2:
			if t.Bool("off") {
				v = 0
			}
			s.SetFlutter(v)
			flut = clamp(v, 0, 1)
		case 3:
			s.SetWarmth(v)
			warm = clamp(v, 0, 1)
		case 4:
			s.SetMix(v)
			mix = clamp(v, 0, 1)
		case 5:
			s.SetOutput(v * 2)
			out = clamp(v*2, 0, 2)
		case 6:
			s.Reset()
			st = [2]tapeState{}
			t.Desc(" reset")
		default:
			t.Desc(" [s%.3g c%.3g f%.3g w%.3g m%.3g o%.3g]", sat, comp, flut, warm, mix, out)
			runDouble(t, s.Process, s.ProcessBlock, s.ProcessStereo, model)
		}
	}
}

func flutter(t *T) {
	sr := Pick(t, "sr", 1000.0, 2000)
	depth := t.U(0.2, 1, "depth")
	if t.Int(0, 2, "full") == 0 {
		depth = 1
	}
	stereo := t.Bool("stereo")
	s := distortion.NewTapeSaturation(sr)
	s.SetSaturation(0)
	s.SetWarmth(0)
	s.SetFlutter(depth)
	if depth == 1 {
		s.SetFlutter(t.U(1, 1.5, "over"))
	}
	n := int(20 * sr)
	slope := 1e-4 / float64(n)
	x, a, b := make([]float64, n), make([]float64, n), make([]float64, n)
	for i := range x {
		x[i] = slope * float64(i)
	}
	t.Desc("flutter %v at %v, stereo %v", depth, sr, stereo)
	t.Nontrivial(true)
	if stereo {
		s.ProcessStereo(x, x, a, b)
		if i, ok := firstDiff(a, b); !ok {
			t.Fatalf("sample %d: equal channels give %v and %v", i, a[i], b[i])
		}
	} else {
		s.ProcessBlock(x, a)
	}
	const avg = 50
	var acc float64
	lo, hi := math.Inf(1), math.Inf(-1)
	crossings, side := 0, 0
	for i := 100; i < n; i++ {
		d := float64(i) - a[i]/0.56/slope
		if !(math.Abs(d-4.25) <= 3.9*depth+0.05) {
			t.Fatalf("sample %d is delayed by %v samples with flutter %v", i, d, depth)
		}
		acc += d
		if i%avg == avg-1 {
			m := acc/avg - 4.25
			acc = 0
			if i < 200 {
				continue
			}
			lo, hi = math.Min(lo, m), math.Max(hi, m)
			now := side
			if m > depth {
				now = 1
			} else if m < -depth {
				now = -1
			}
			if side != 0 && now != side {
				crossings++
			}
			side = now
		}
	}
	if hi < 2.4*depth || lo > -2.4*depth {
		t.Fatalf("with flutter %v the delay swings from %v to %v", depth, lo, hi)
	}
	if crossings < 10 || crossings > 22 {
		t.Fatalf("the delay crosses its center %d times in 20 s, expected 12 to 20", crossings)
	}
}

func firstDiff(a, b []float64) (int, bool) {
	for i := range a {
		if a[i] != b[i] {
			return i, false
		}
	}
	return 0, true
}

func helpers(t *T) {
	x := t.U(-1, 1, "x") * Pick(t, "scale", 1.0, 1, 3)
	k := t.U(-5, 15, "k")
	if v, w := distortion.Sigmoid(x, k), math.Tanh(x*clamp(k, 0.1, 10)/2); !(math.Abs(v-w) <= 1.1e-6) || !(math.Abs(v) < 1) {
		t.Fatalf("sigmoid of %v with %v is %v, expected %v", x, k, v, w)
	}
	n := Pick(t, "n", t.Int(0, 9, "order"), t.Int(0, 40, "high"))
	t.Nontrivial(n > 2)
	t.Desc("helpers at %v, order %d", x, n)
	c := make([]float64, n)
	var want float64
	for i := range c {
		c[i] = t.U(-2, 2, "c")
	}
	for i := n - 1; i >= 0; i-- {
		want = want*x + c[i]
	}
	if v := distortion.Polynomial(x, c); !Close(v, want, 1e-6, 1e-9*math.Max(1, math.Pow(math.Abs(x), float64(n)))) {
		t.Fatalf("polynomial %v at %v is %v, expected %v", c, x, v, want)
	}
	cx := clamp(x, -1, 1)
	if v, w := distortion.ChebyshevPolynomial(cx, n), math.Cos(float64(n)*math.Acos(cx)); !(math.Abs(v-w) <= 1e-5) {
		t.Fatalf("Chebyshev polynomial %d at %v is %v, expected %v", n, cx, v, w)
	}
	steps := t.Int(-1, 20, "steps")
	if steps > 1 && math.Abs(x) > 1 {
		d := 2 / float64(steps-1)
		if q := distortion.QuantizeToSteps(x, steps); !(math.Abs(q-x) <= d/2+1e-9) {
			t.Fatalf("%v in %d steps is %v", x, steps, q)
		}
	}
	q := distortion.QuantizeToSteps(cx, steps)
	if steps <= 1 {
		if q != 0 {
			t.Fatalf("%d steps give %v", steps, q)
		}
	} else {
		d := 2 / float64(steps-1)
		pos := (q + 1) / d
		if !(math.Abs(q-cx) <= d/2+1e-9) || !(math.Abs(pos-math.Round(pos)) <= 1e-9) || !(math.Abs(q) <= 1+1e-12) {
			t.Fatalf("%v in %d steps is %v", cx, steps, q)
		}
	}
	th := math.Abs(t.U(0, 1, "th"))
	w := x
	if math.Abs(x) < th {
		w = 0
	}
	if v := distortion.GateEffect(x, th); v != w {
		t.Fatalf("gating %v at %v gives %v", x, th, v)
	}
}
