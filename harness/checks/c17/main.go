// C17: compressor, expander and gate.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"vst3verif/ref"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C17",
		Subs: []Sub{
			{Name: "curves", Quick: 36000, Thorough: 200000, Fn: curves,
				Rule: "compressors and expanders with any threshold, ratio, knee, makeup and range, settled on a constant level: output level against the static curve, and never above (expander) or rising against the input; non-trivial: a level in the knee or beyond the threshold"},
			{Name: "compressor", Quick: 6400, Thorough: 150000, Fn: compressor,
				Rule: "histories of mono, buffer, stereo and sidechain processing with setting changes, lookahead and resets, sample by sample against detector, curve and delay in double precision; non-trivial: reduction above 1 dB"},
			{Name: "expander", Quick: 12000, Thorough: 150000, Fn: expander,
				Rule: "histories of mono, buffer and stereo processing with setting changes and resets against detector, curve and gain smoothing in double precision; non-trivial: reduction above 1 dB"},
			{Name: "gate", Quick: 15000, Thorough: 200000, Fn: gate,
				Rule: "histories of mono, buffer and stereo processing over bursts and silence with setting changes and resets against the five-state gate in double precision, including reported state; non-trivial: the gate opened and closed"},
			{Name: "linked", Quick: 29000, Thorough: 145000, Fn: linked,
				Rule: "stereo signals through all three: both channels get the same gain, swapping channels swaps the output, a mono signal on both sides equals mono processing; non-trivial: channels differ"},
		},
		Assumptions: []string{"levels within rounding of a gate threshold may fall on either side; the history ends there"},
	})
}

type comp struct {
	thr, ratio, width, makeup float64
	soft                      bool
}

func (c comp) reduction(db float64) float64 {
	w := c.width
	if !c.soft {
		w = 0
	}
	over := db - c.thr
	full := math.Max(0, over) * (1 - 1/c.ratio)
	if over >= w/2 {
		return full
	}
	if over <= -w/2 {
		return 0
	}
	p := (over + w/2) / w
	return p * p * full
}

type exp struct{ thr, ratio, knee, rng float64 }

func (e exp) gain(db float64) float64 {
	under := db - e.thr
	full := math.Min(0, under) * (e.ratio - 1)
	if under >= e.knee/2 {
		full = 0
	} else if under > -e.knee/2 {
		p := (e.knee/2 - under) / e.knee
		full *= p * p
	}
	return math.Max(full, e.rng)
}

func curves(t *T) {
	sr := t.Rate("sr")
	db := t.U(-80, 12, "level")
	c := comp{t.U(-60, 6, "thr"), Pick(t, "ratio", t.LogU(1, 30, "r"), 1, 0.5, math.Inf(1)), Pick(t, "width", t.U(0, 24, "w"), 0, 6), Pick(t, "makeup", 0, t.U(-12, 24, "m")), t.Bool("soft")}
	if t.Bool("near") {
		db = c.thr + t.U(-1, 1, "d")*(c.width/2+1)
	}
	x := float32(FromDB(db))
	neg := t.Bool("negative")
	if neg {
		x = -x
	}
	db = DB(math.Abs(float64(x)))
	t.Desc("level=%.4f %+v", db, c)
	p := dynamics.NewCompressor(sr)
	p.SetThreshold(c.thr)
	p.SetRatio(c.ratio)
	kt := dynamics.KneeHard
	if c.soft {
		kt = dynamics.KneeSoft
	}
	p.SetKnee(kt, c.width)
	p.SetMakeupGain(c.makeup)
	p.SetAttack(0.0001)
	c.ratio = math.Max(1, c.ratio)
	var y float32
	for i := 0; i < 400; i++ {
		y = p.Process(x)
	}
	red := c.reduction(db)
	t.Nontrivial(db > c.thr-c.width/2)
	if got := DB(float64(y) / float64(x)); !Close(got, c.makeup-red, 2e-3, 0) {
		t.Fatalf("compressor %+v at a steady %v dB has a gain of %v dB, expected %v", c, db, got, c.makeup-red)
	}
	if m := p.GetGainReduction(); !Close(m, red, 2e-3, 0) || m < 0 {
		t.Fatalf("compressor %+v at a steady %v dB reports %v dB of reduction, expected %v", c, db, m, red)
	}
	e := exp{c.thr, Pick(t, "eratio", t.LogU(1, 20, "er"), 1, 0.5), c.width, Pick(t, "range", -t.U(0, 80, "rng"), 0, -40, 10)}
	q := dynamics.NewExpander(sr)
	q.SetThreshold(e.thr)
	q.SetRatio(e.ratio)
	q.SetKnee(e.knee)
	q.SetRange(e.rng)
	q.SetAttack(0.0001)
	q.SetRelease(0.0001)
	e.ratio, e.rng = math.Max(1, e.ratio), math.Min(0, e.rng)
	for i := 0; i < 800; i++ {
		y = q.Process(x)
	}
	want := e.gain(db)
	t.Nontrivial(want < -0.01)
	if got := DB(float64(y) / float64(x)); !Close(got, want, 3e-3, 0) {
		t.Fatalf("expander %+v at a steady %v dB has a gain of %v dB, expected %v", e, db, got, want)
	}
	if m := q.GetGainReduction(); !Close(m, want, 3e-3, 0) {
		t.Fatalf("expander %+v at a steady %v dB reports %v dB, expected %v", e, db, m, want)
	}
}

func sig(t *T, n int) []float32 {
	return t.Signal(n, Pick(t, "amp", 1.0, 1, 0.3, 0.03, 3), "x")
}

func compressor(t *T) {
	sr := t.Rate("sr")
	p := dynamics.NewCompressor(sr)
	c := comp{-20, 4, 2, 0, true}
	d := ref.NewDetector(sr, 0)
	d.Type, d.Attack, d.Release = 1, 0.005, 0.05
	var delay [2][]float64 // what went in, most recent last
	la := 0
	stereo := t.Int(0, 3, "stereo") == 0 // stereo runs only, so the right delay never goes stale
	t.Desc("sr=%v stereo=%v", sr, stereo)
	reset := func() {
		for ch := range delay {
			delay[ch] = make([]float64, la)
		}
	}
	for op := t.Size(2, 16, 96, "ops"); op > 0; op-- {
		switch t.Int(0, 12, "op") {
		case 0:
			c.thr = Pick(t, "thrk", t.U(-50, 0, "thr"), t.U(-50, 0, "thr2"), t.U(-110, 24, "thr3"))
			p.SetThreshold(c.thr)
		case 1:
			c.ratio = Pick(t, "ratio", t.LogU(1, 30, "r"), t.LogU(1, 1e5, "r2"), 0, -3, math.Inf(1))
			p.SetRatio(c.ratio)
			c.ratio = math.Max(1, c.ratio)
		case 2:
			d.Attack = Pick(t, "a", t.LogU(0.0001, 0.05, "av"), 0, -0.01, t.LogU(0.05, 10, "along"))
			p.SetAttack(d.Attack)
			d.Attack = math.Max(0.0001, d.Attack)
		case 3:
			d.Release = Pick(t, "r", t.LogU(0.001, 0.3, "rv"), 0, -0.01, t.LogU(0.3, 20, "rlong"))
			p.SetRelease(d.Release)
			d.Release = math.Max(0.001, d.Release)
		case 4:
			c.width, c.soft = Pick(t, "wk", t.U(-1, 20, "w"), -10, t.U(0, 80, "w2")), t.Bool("soft")
			if c.soft {
				p.SetKnee(dynamics.KneeSoft, c.width)
			} else {
				p.SetKnee(dynamics.KneeHard, c.width)
			}
			c.width = math.Max(0, c.width)
		case 5:
			c.makeup = Pick(t, "mk", t.U(-12, 12, "makeup"), t.U(-90, 60, "makeup2"))
			p.SetMakeupGain(c.makeup)
		case 6:
			s := Pick(t, "la", 0, t.U(0, 0.002, "las"), t.U(0, 0.02, "las"), -1)
			p.SetLookahead(s)
			if n := int(math.Max(0, math.Min(0.01, s)) * sr); n != la {
				la = n
				reset()
			}
			t.Desc(" lookahead=%d", la)
		case 7:
			if t.Int(0, 2, "reset") == 0 {
				p.Reset()
				d.Reset()
				reset()
				if p.GetGainReduction() != 0 {
					t.Fatalf("after a reset a reduction of %v dB is reported", p.GetGainReduction())
				}
			}
		default:
			n := t.Size(1, 150, 20000, "n")
			x := sig(t, n)
			y, z := make([]float32, n), make([]float32, n)
			r := Clone(x)
			how := t.Int(0, 3, "how")
			if stereo {
				how = 2
			}
			t.Desc(" how=%d", how)
			if how >= 2 {
				r = sig(t, n)
			}
			inplace := t.Bool("inplace")
			xi, ri := Clone(x), Clone(r)
			if inplace {
				y, z = xi, ri
			}
			// Stereo delays the right channel too; mixing mono and stereo
			// runs with lookahead leaves the right delay behind.
			switch how {
			case 0:
				for i := range x {
					y[i] = p.Process(xi[i])
				}
			case 1:
				p.ProcessBuffer(xi, y)
			case 2:
				if la > 0 && !stereo {
					p.Reset()
					d.Reset()
					reset()
				}
				p.ProcessStereo(xi, ri, y, z)
			case 3:
				p.ProcessSidechain(xi, ri, y)
			}
			for i := range x {
				v := float64(x[i])
				switch how {
				case 2:
					v = math.Max(math.Abs(v), math.Abs(float64(r[i])))
				case 3:
					v = float64(r[i])
				}
				red := c.reduction(ref.Level(d.Detect(v)))
				g := FromDB(c.makeup - red)
				t.Nontrivial(red > 1)
				out := [2]float64{float64(x[i]), float64(r[i])}
				if la > 0 {
					for ch := range delay {
						delay[ch] = append(delay[ch], out[ch])
						out[ch] = delay[ch][0]
						delay[ch] = delay[ch][1:]
					}
				}
				if !Close(float64(y[i]), out[0]*g, 1e-9, 1e-4) {
					t.Fatalf("compressor %+v (a=%v r=%v lookahead=%d at %v Hz), way %d: sample %d is %v, expected %v (reduction %v dB)", c, d.Attack, d.Release, la, sr, how, i, y[i], out[0]*g, red)
				}
				if how == 2 && !Close(float64(z[i]), out[1]*g, 1e-9, 1e-4) {
					t.Fatalf("compressor %+v (a=%v r=%v lookahead=%d at %v Hz): right sample %d is %v, expected %v", c, d.Attack, d.Release, la, sr, i, z[i], out[1]*g)
				}
				if i == n-1 && !Close(p.GetGainReduction(), red, 1e-3, 1e-4) {
					t.Fatalf("a reduction of %v dB is reported as %v", red, p.GetGainReduction())
				}
			}
			if how == 2 && la > 0 && !stereo {
				p.Reset()
				d.Reset()
				reset()
			}
		}
	}
}

func coef(sec, sr float64) float64 {
	if sec <= 0 {
		return 0
	}
	return math.Exp(-1 / (sec * sr))
}

func expander(t *T) {
	sr := t.Rate("sr")
	p := dynamics.NewExpander(sr)
	c := exp{-40, 2, 2, -40}
	d := ref.NewDetector(sr, 0)
	d.Type, d.Attack, d.Release = 1, 0.001, 0.1
	g := 1.0
	t.Desc("sr=%v", sr)
	for op := t.Size(2, 16, 96, "ops"); op > 0; op-- {
		switch t.Int(0, 11, "op") {
		case 0:
			c.thr = Pick(t, "thrk", t.U(-50, 0, "thr"), t.U(-50, 0, "thr2"), t.U(-110, 24, "thr3"))
			p.SetThreshold(c.thr)
		case 1:
			c.ratio = Pick(t, "ratio", t.LogU(1, 20, "r"), t.LogU(1, 200, "r2"), 0, -2)
			p.SetRatio(c.ratio)
			c.ratio = math.Max(1, c.ratio)
		case 2:
			d.Attack = Pick(t, "a", t.LogU(0.0001, 0.05, "av"), 0, -1)
			p.SetAttack(d.Attack)
		case 3:
			d.Release = Pick(t, "r", t.LogU(0.0001, 0.3, "rv"), 0, -1)
			p.SetRelease(d.Release)
		case 4:
			c.knee = Pick(t, "kk", t.U(-1, 20, "knee"), -10, t.U(0, 80, "knee2"))
			p.SetKnee(c.knee)
			c.knee = math.Max(0, c.knee)
		case 5:
			c.rng = Pick(t, "rk", t.U(-80, 10, "range"), t.U(-200, 40, "range2"))
			p.SetRange(c.rng)
			c.rng = math.Min(0, c.rng)
		case 6:
			if t.Int(0, 2, "reset") == 0 {
				p.Reset()
				d.Reset()
				g = 1
				if p.GetGainReduction() != 0 {
					t.Fatalf("after a reset a gain of %v dB is reported", p.GetGainReduction())
				}
			}
		default:
			n := t.Size(1, 150, 20000, "n")
			x := sig(t, n)
			r := Clone(x)
			y, z := make([]float32, n), make([]float32, n)
			how := t.Int(0, 2, "how")
			t.Desc(" how=%d", how)
			if how == 2 {
				r = sig(t, n)
			}
			xi, ri := Clone(x), Clone(r)
			if t.Bool("inplace") {
				y, z = xi, ri
			}
			switch how {
			case 0:
				for i := range x {
					y[i] = p.Process(xi[i])
				}
			case 1:
				p.ProcessBuffer(xi, y)
			case 2:
				p.ProcessStereo(xi, ri, y, z)
			}
			for i := range x {
				v := math.Max(math.Abs(float64(x[i])), math.Abs(float64(r[i])))
				e := d.Detect(v)
				if e != 0 && e < 1e-30 {
					return // on the verge of float32 silence
				}
				tg := FromDB(c.gain(ref.Level(e)))
				k := coef(d.Release, sr)
				if g > tg {
					k = coef(d.Attack, sr)
				}
				g = tg + (g-tg)*k
				t.Nontrivial(g < 0.9)
				if !Close(float64(y[i]), float64(x[i])*g, 1e-9, 1e-4) || how == 2 && !Close(float64(z[i]), float64(r[i])*g, 1e-9, 1e-4) {
					t.Fatalf("expander %+v (a=%v r=%v at %v Hz), way %d: sample %d is %v (right %v), expected a gain of %v on %v and %v", c, d.Attack, d.Release, sr, how, i, y[i], z[i], g, x[i], r[i])
				}
				if i == n-1 && !Close(p.GetGainReduction(), math.Min(0, DB(g)), 2e-3, 1e-4) {
					t.Fatalf("a gain of %v dB is reported as %v", DB(g), p.GetGainReduction())
				}
			}
		}
	}
}

func gate(t *T) {
	sr := t.Rate("sr")
	p := dynamics.NewGate(sr)
	thr, hyst, a, r, rng := -40.0, 5.0, 0.001, 0.1, -80.0
	hold, count := int(0.01*sr), 0
	hpf, fc := false, 0.0
	st, open := "closed", false
	g := FromDB(rng)
	tg := g
	lastIn, hp, pk := 0.0, 0.0, 0.0
	opened := false
	t.Desc("sr=%v", sr)
	for op := t.Size(3, 24, 144, "ops"); op > 0; op-- {
		switch t.Int(0, 16, "op") {
		case 0:
			thr = Pick(t, "tk", t.U(-60, 0, "thr"), t.U(-60, 0, "thr1"), t.U(-95, 20, "thr2"))
			p.SetThreshold(thr)
		case 1:
			hyst = Pick(t, "hk", t.U(-2, 20, "hyst"), 0, -10, t.U(0, 60, "hyst2"))
			p.SetHysteresis(hyst)
			hyst = math.Max(0, hyst)
		case 2, 3:
			a = Pick(t, "a", t.LogU(0.00002, 0.01, "av"), t.LogU(0.00002, 0.01, "av1"), 0, -1, t.LogU(0.01, 5, "along"))
			p.SetAttack(a)
		case 4, 5:
			r = Pick(t, "r", t.LogU(0.00002, 0.02, "rv"), t.LogU(0.00002, 0.02, "rv1"), 0, -1, t.LogU(0.02, 20, "rlong"))
			p.SetRelease(r)
		case 6, 7:
			h := Pick(t, "hold?", t.U(-0.0005, 0.004, "hold"), 0, t.U(0.0001, 0.001, "hold1"), t.U(0, 0.05, "hold2"))
			p.SetHold(h)
			hold = int(math.Max(0, h) * sr)
		case 8:
			rng = Pick(t, "rk", t.U(-90, 5, "range"), t.U(-90, 5, "range1"), t.U(-200, 30, "range2"))
			p.SetRange(rng)
			rng = math.Min(0, rng)
			if st == "closed" {
				g = FromDB(rng)
				tg = g
			} else if st == "release" {
				tg = FromDB(rng)
			}
		case 9:
			hpf, fc = t.Bool("hpf"), t.Keep(t.LogU(5, 200000, "fc"), fc, "fc")
			p.SetSidechainFilter(hpf, fc)
			fc = math.Max(20, math.Min(fc, sr/2))
		case 10:
			if t.Int(0, 2, "reset") == 0 {
				p.Reset()
				st, open, count = "closed", false, 0
				g = FromDB(rng)
				tg = g
				lastIn, hp = 0, 0
				if p.GetGainReduction() != rng {
					t.Fatalf("after a reset a gain of %v dB is reported", p.GetGainReduction())
				}
			}
		default:
			n := t.Size(1, 300, 20000, "n")
			var x []float32
			if t.Int(0, 3, "silence") == 0 {
				x = make([]float32, n)
			} else if t.Bool("steady") {
				x = make([]float32, n)
				v := float32(FromDB(thr + t.U(-25, 15, "above")))
				for i := range x {
					x[i] = v
					if i%2 == 1 {
						x[i] = -v
					}
				}
			} else {
				x = sig(t, n)
			}
			q := Clone(x)
			y, z := make([]float32, n), make([]float32, n)
			how := t.Int(0, 2, "how")
			t.Desc(" %d*%d", how, n)
			if how == 2 {
				q = sig(t, n)
			}
			xi, qi := Clone(x), Clone(q)
			if t.Bool("inplace") {
				y, z = xi, qi
			}
			single := how == 0
			if !single {
				if how == 1 {
					p.ProcessBuffer(xi, y)
				} else {
					p.ProcessStereo(xi, qi, y, z)
				}
			}
			for i := range x {
				v := float64(x[i])
				if how == 2 {
					v = math.Max(math.Abs(v), math.Abs(float64(q[i])))
				}
				if hpf {
					k := math.Exp(-2 * math.Pi * fc / sr)
					hp = (1+k)/2*(v-lastIn) + k*hp
					lastIn = v
					v = hp
				}
				db := ref.Level(math.Abs(v))
				// rounding of the level, and of the filter's single precision
				eps := 1e-7 * math.Abs(v)
				if hpf {
					pk = math.Max(pk, math.Abs(lastIn))
					eps += 3e-7*pk/(1-math.Exp(-2*math.Pi*fc/sr)) + 1e-9
				}
				if math.Abs(math.Abs(v)-FromDB(thr)) < eps || math.Abs(math.Abs(v)-FromDB(thr-hyst)) < eps {
					return
				}
				if hpf && thr-hyst < -95 && math.Abs(v) < 1e-8 {
					return // the filter's tail reaches zero sooner in single precision
				}
				above, below := db > thr, db < thr-hyst
				switch st {
				case "closed":
					if above {
						st, tg = "attack", 1
					}
				case "attack":
					if below {
						st, tg = "release", FromDB(rng)
					}
				case "open":
					if below {
						st, count = "hold", hold
					}
				case "hold":
					if !below {
						st = "open"
					} else if count > 0 {
						count--
					} else {
						st, open, tg = "release", false, FromDB(rng)
					}
				case "release":
					if above {
						st, tg = "attack", 1
					}
				}
				k := coef(r, sr)
				if g < tg {
					k = coef(a, sr)
				}
				if g != tg {
					g = tg + (g-tg)*k
				}
				if math.Abs(g-0.99) < 1e-9 || math.Abs(g-tg*1.01) < 1e-9 && g != tg {
					return
				}
				if st == "attack" && g >= 0.99 {
					st, open = "open", true
					opened = true
				} else if st == "release" && g <= tg*1.01 {
					st = "closed"
					t.Nontrivial(opened)
				}
				if single {
					y[i] = p.Process(xi[i])
				}
				if !Close(float64(y[i]), float64(x[i])*g, 1e-9, 1e-5) || how == 2 && !Close(float64(z[i]), float64(q[i])*g, 1e-9, 1e-5) {
					t.Fatalf("gate (thr=%v hyst=%v a=%v hold=%d r=%v range=%v filter=%v/%v at %v Hz), way %d: sample %d is %v (right %v), expected a gain of %v on %v and %v in state %s", thr, hyst, a, hold, r, rng, hpf, fc, sr, how, i, y[i], z[i], g, x[i], q[i], st)
				}
				if single || i == n-1 {
					if p.GetState() != st || p.IsOpen() != open {
						t.Fatalf("the gate reports state %s (open %v), expected %s (%v)", p.GetState(), p.IsOpen(), st, open)
					}
					want := 20 * math.Log10(g)
					if want > -0.1 {
						want = 0
					}
					if m := p.GetGainReduction(); !Close(m, want, 1e-3, 0) && !(math.Abs(20*math.Log10(g)+0.1) <= 1e-6) {
						t.Fatalf("a gain of %v dB is reported as %v", want, m)
					}
				}
			}
			t.Class(st)
		}
	}
}

type stereo interface {
	ProcessStereo(a, b, x, y []float32)
	ProcessBuffer(a, x []float32)
	Process(float32) float32
}

func linked(t *T) {
	sr := t.Rate("sr")
	kind := t.Int(0, 2, "kind")
	thr := t.U(-50, -6, "thr")
	mk := func() stereo {
		switch kind {
		case 0:
			c := dynamics.NewCompressor(sr)
			c.SetThreshold(thr)
			return c
		case 1:
			e := dynamics.NewExpander(sr)
			e.SetThreshold(thr)
			return e
		}
		g := dynamics.NewGate(sr)
		g.SetThreshold(thr)
		return g
	}
	t.Desc("kind=%d thr=%v", kind, thr)
	n := t.Size(1, 500, 20000, "n")
	l, r := sig(t, n), sig(t, n)
	if t.Int(0, 3, "mono") == 0 {
		r = l
	}
	_, same := SameBits(l, r)
	t.Nontrivial(!same)
	a, b, c, d := make([]float32, n), make([]float32, n), make([]float32, n), make([]float32, n)
	mk().ProcessStereo(l, r, a, b)
	mk().ProcessStereo(r, l, c, d)
	if i, ok := SameBits(a, d); !ok {
		t.Fatalf("processor %d: swapping the channels changes sample %d: %v, %v", kind, i, a[i], d[i])
	}
	if i, ok := SameBits(b, c); !ok {
		t.Fatalf("processor %d: swapping the channels changes sample %d: %v, %v", kind, i, b[i], c[i])
	}
	for i := range l {
		if !Close(float64(a[i])*float64(r[i]), float64(b[i])*float64(l[i]), 1e-9, 1e-5) {
			t.Fatalf("processor %d: the channels get different gains at sample %d: %v from %v, %v from %v", kind, i, a[i], l[i], b[i], r[i])
		}
	}
	if same {
		m := make([]float32, n)
		mk().ProcessBuffer(l, m)
		if s, ok := CloseSlice(m, a, 1e-9, 1e-6); !ok {
			t.Fatalf("processor %d: a mono signal on both channels is not processed like in mono: %s", kind, s)
		}
	}
}
