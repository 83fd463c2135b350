// C31: modulation effects follow their LFO, delay and mix settings.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C31",
		Subs: []Sub{
			{Name: "lfo", Quick: 13000, Thorough: 200000, Fn: lfo,
				Rule: "histories of frequency, waveform, depth, offset, phase and sync changes, samples, buffers and resets against the waveform at the accumulated phase; non-trivial: a change after the first sample"},
			{Name: "random", Quick: 3100, Thorough: 60000, Fn: random,
				Rule: "sample and hold: values in range, held for one period, the same sequence after a reset and next to any other instance; non-trivial: three periods or more"},
			{Name: "chorus", Quick: 5000, Thorough: 60000, Fn: chorus,
				Rule: "histories of setting changes, mono, stereo and buffer runs and resets against the written history read at each voice's modulated delay; non-trivial: wet mix and 2 voices or more"},
			{Name: "flanger", Quick: 13000, Thorough: 65000, Fn: flanger,
				Rule: "histories of setting changes, manual mode, mono, stereo and buffer runs and resets against the written history; non-trivial: wet mix and feedback"},
			{Name: "phaser", Quick: 10000, Thorough: 60000, Fn: phaser,
				Rule: "histories of setting changes, mono, stereo and buffer runs and resets against the all-pass cascade in double precision; non-trivial: wet mix and feedback"},
			{Name: "stage", Quick: 6500, Thorough: 40000, Fn: stage,
				Rule: "one all-pass stage passes sines of any frequency at unit gain and turns the phase by 90 degrees at its frequency; non-trivial: every case"},
			{Name: "ringmod", Quick: 21000, Thorough: 105000, Fn: ringmod,
				Rule: "histories of carrier, LFO and mix changes, mono, stereo and buffer runs and resets against the product with the carrier at the accumulated phase; non-trivial: a change after the first sample"},
			{Name: "tremolo", Quick: 11000, Thorough: 100000, Fn: tremolo,
				Rule: "histories of setting changes, mono, stereo and buffer runs and resets against the gain at the accumulated phase, reported gain included; non-trivial: depth above zero"},
		},
		Assumptions: []string{"in a step of a square or sawtooth waveform either side is accepted when the phase is within rounding of it"},
	})
}

func clamp(v, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, v)) }

func wave(w modulation.Waveform, p float64) float64 {
	p -= math.Floor(p)
	switch w {
	case modulation.WaveformTriangle:
		return 1 - 4*math.Abs(p-0.5)
	case modulation.WaveformSquare:
		if p < 0.5 {
			return 1
		}
		return -1
	case modulation.WaveformSawtooth:
		return 2*p - 1
	}
	return math.Sin(2 * math.Pi * p)
}

// osc is a phase accumulator.
type osc struct{ p float64 }

func (o *osc) next(inc float64) float64 {
	p := o.p
	o.p += inc
	if o.p >= 1 {
		o.p--
	}
	return p
}

const eps = 1e-8

// around gives the values the waveform may have within rounding of the phase.
func around(w modulation.Waveform, p float64) []float64 {
	v := wave(w, p)
	a, b := wave(w, p-eps), wave(w, p+eps)
	if math.Abs(a-b) < 1e-3 {
		return []float64{v}
	}
	return []float64{v, a, b}
}

// values is around, unless the phase is exact.
func values(exact bool, w modulation.Waveform, p float64) []float64 {
	if exact {
		return []float64{wave(w, p)}
	}
	return around(w, p)
}

func jump(w modulation.Waveform, p float64) bool { return len(around(w, p)) > 1 }

func waveform(t *T) modulation.Waveform {
	return Pick(t, "wave", modulation.WaveformSine, modulation.WaveformTriangle, modulation.WaveformSquare, modulation.WaveformSawtooth)
}

func freq(t *T) float64 {
	v, w := t.LogU(0.005, 30, "hzv"), t.LogU(0.1, 25, "hzw")
	return Pick(t, "hz", 0.01, 20, 1, 100, 0, -3, v, w, w, w)
}

func rate(t *T) float64 {
	if t.Bool("lowsr") {
		return Pick(t, "sr", 100.0, 1000, 2205)
	}
	return t.Rate("sr")
}

func lfo(t *T) {
	sr := rate(t)
	exact := t.Int(0, 3, "exact") == 0
	if exact { // phases have few bits, so a jump has a certain place
		sr = Pick(t, "sr2", 512.0, 1024)
	}
	l := modulation.NewLFO(sr)
	f, w, depth, offset, sync, syncPhase := 1.0, modulation.WaveformSine, 1.0, 0.0, false, 0.0
	var o osc
	n := 0
	t.Desc("lfo at %v", sr)
	for ops := t.Size(1, 25, 150, "ops"); ops > 0; ops-- {
		op := t.Int(0, 10, "op")
		t.Nontrivial(op < 7 && n > 0)
		switch op {
		case 0:
			v := freq(t)
			if exact {
				v = math.Round(clamp(v, 0.5, 20)*2) / 2
			}
			l.SetFrequency(v)
			f = clamp(v, 0.01, 20)
			t.Desc(" f%v", v)
		case 1:
			w = waveform(t)
			l.SetWaveform(w)
			t.Desc(" w%v", w)
		case 2:
			v := t.U(-0.5, 1.5, "depth")
			l.SetDepth(v)
			depth = clamp(v, 0, 1)
		case 3:
			v := t.U(-1.5, 1.5, "offset")
			l.SetOffset(v)
			offset = clamp(v, -1, 1)
		case 4:
			v := t.U(-3, 3, "phase")
			if exact {
				v = math.Round(v*64) / 64
			}
			l.SetPhase(v)
			o.p = v - math.Floor(v)
		case 5:
			sync, syncPhase = t.Bool("sync"), math.Min(t.U(0, 1, "at"), 0.999)
			if exact {
				syncPhase = math.Floor(syncPhase*64) / 64
			}
			l.EnableSync(sync, syncPhase)
		case 6:
			if t.Bool("reset") {
				l.Reset()
				o.p = 0
				t.Desc(" reset")
			} else {
				l.Sync()
				if sync {
					o.p = syncPhase
				}
				t.Desc(" sync")
			}
		default:
			k := t.Int(1, Pick(t, "long", 50, 50, 3000), "n")
			buf := make([]float64, k)
			if t.Bool("buffer") {
				l.ProcessBuffer(buf)
			} else {
				for i := range buf {
					buf[i] = l.Process()
				}
			}
			t.Desc(" run%d", k)
			for i, got := range buf {
				p := o.next(f / sr)
				ok := false
				for _, v := range values(exact, w, p) {
					ok = ok || Close(got, clamp(v*depth+offset, -1, 1), 1e-6, 0)
				}
				if !ok {
					t.Fatalf("waveform %v at phase %v, depth %v, offset %v: sample %d is %v, expected %v", w, p, depth, offset, n+i, got, clamp(wave(w, p)*depth+offset, -1, 1))
				}
			}
			n += k
			g := l.GetPhase()
			if d := math.Abs(g - o.p); !(g >= 0 && g < 1) || math.Min(d, 1-d) > 1e-8 {
				t.Fatalf("the phase is reported as %v, expected %v", g, o.p)
			}
		}
	}
}

func random(t *T) {
	sr := rate(t)
	f := clamp(t.LogU(0.5, 20, "hz"), math.Min(20, sr/2000), 20)
	depth, offset := Pick(t, "depth", 1.0, t.U(0.1, 1, "d")), Pick(t, "offset", 0.0, t.U(-1, 1, "o"))
	mk := func() *modulation.LFO {
		l := modulation.NewLFO(sr)
		l.SetFrequency(f)
		l.SetWaveform(modulation.WaveformRandom)
		return l
	}
	l, other, full := mk(), mk(), mk()
	if t.Int(0, 49, "long") == 0 { // many periods reach all of the range, and nothing else
		q := modulation.NewLFO(100)
		q.SetFrequency(20)
		q.SetWaveform(modulation.WaveformRandom)
		lo, hi, sum, n := 1.0, -1.0, 0.0, t.Int(20000, 60000, "many")
		for i := 0; i < n; i++ {
			v := q.Process()
			lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
		}
		if !(lo >= -1 && lo < -0.98 && hi <= 1 && hi > 0.98 && math.Abs(sum/float64(n)) < 0.1) {
			t.Fatalf("%d random values lie between %v and %v, on average %v", n/5, lo, hi, sum/float64(n))
		}
	}
	l.SetDepth(depth)
	l.SetOffset(offset)
	period := math.Floor(sr / f)
	n := int(period*t.U(1, 7, "periods")) + 1
	t.Nontrivial(float64(n) > 3*period)
	t.Desc("random at %v, %v Hz, %d samples", sr, f, n)
	x := make([]float64, n)
	l.ProcessBuffer(x)
	start := 0
	runs := map[float64]bool{}
	raw := make([]float64, n)
	for i := range raw {
		raw[i] = full.Process()
		if i%3 == 0 {
			other.Process()
		}
	}
	for i, v := range raw {
		runs[v] = true
		if !(v >= -1 && v <= 1) {
			t.Fatalf("value %v at sample %d", v, i)
		}
		if w := clamp(v*depth+offset, -1, 1); !Close(x[i], w, 1e-9, 0) {
			t.Fatalf("sample %d is %v with depth %v and offset %v, expected %v: instances are not independent", i, x[i], depth, offset, w)
		}
		if i > 0 && v != raw[i-1] || i == n-1 {
			if k := float64(i - start); i < n-1 && !(math.Abs(k-period) <= 1) || k > period+1 {
				t.Fatalf("a value is held for %v samples, expected %v (one period of %v Hz at %v)", k, period, f, sr)
			}
			start = i
			runs[v] = true
		}
	}
	if n > int(period)+2 && len(runs) < 2 {
		t.Fatalf("the value never changes")
	}
	tr := modulation.NewTremolo(sr)
	tr.SetRate(f)
	tr.SetWaveform(modulation.WaveformRandom)
	tr.SetDepth(depth)
	both := t.Bool("stereo")
	tr.SetStereo(both)
	tr.SetStereoPhase(t.U(0, 1, "phase"))
	a, b := make([]float32, n), make([]float32, n)
	for i := range a {
		a[i], b[i] = 1, 1
	}
	tr.ProcessStereoBuffer(a, b, a, b)
	for c, y := range [][]float32{a, b} {
		first, start := true, 0
		for i, v := range y {
			if !(float64(v) >= 1-depth-1e-6 && v <= 1) {
				t.Fatalf("a random tremolo of depth %v has a gain of %v on channel %d", depth, v, c)
			}
			if !both && a[i] != b[i] {
				t.Fatalf("the channels of a tremolo that is not stereo have gains of %v and %v", a[i], b[i])
			}
			if i > 0 && v != y[i-1] {
				if k := float64(i - start); k > period+1 || !first && k < period-1 {
					t.Fatalf("a random tremolo holds a gain for %v samples on channel %d, a period is %v", k, c, period)
				}
				first, start = false, i
			}
		}
		if float64(n-start) > period+2 {
			t.Fatalf("a random tremolo holds a gain for %d samples on channel %d, a period is %v", n-start, c, period)
		}
	}
	var runs2 [2][]float32
	for k := range runs2 {
		tr.Reset()
		for range a {
			u, v := tr.ProcessStereo(1, 1)
			runs2[k] = append(runs2[k], u, v)
		}
	}
	if i, ok := SameBits(runs2[0], runs2[1]); !ok {
		t.Fatalf("a random tremolo, stereo %v, gives %v on channel %d, sample %d after a reset, and %v after another", both, runs2[0][i], i%2, i/2, runs2[1][i])
	}
	full.Reset()
	for i := range raw {
		if v := full.Process(); v != raw[i] {
			t.Fatalf("sample %d after a reset is %v, a fresh one gives %v", i, v, raw[i])
		}
	}
}

// line is a written history in double precision; 0 is the newest sample.
type line []float64

func (h line) at(k int) float64 {
	if i := len(h) - 1 - k; i >= 0 && k >= 0 {
		return h[i]
	}
	return 0
}

func (h line) read(d float64) float64 {
	k := math.Floor(d)
	f := d - k
	if f == 0 {
		return h.at(int(k))
	}
	return h.at(int(k))*(1-f) + h.at(int(k)+1)*f
}

// effect is the common face of the delay-based effects.
type effect struct {
	mono      func(in, out []float32)
	monoBuf   func(in, out []float32)
	stereo    func(l, r, ol, or []float32)
	stereoBuf func(l, r, ol, or []float32)
	reset     func()
}

// run processes a drawn stretch and returns the inputs and outputs; the right
// output is nil for mono processing.
func run(t *T, e effect, mono bool) (xl, xr, yl, yr []float32) {
	n := t.Size(1, Pick(t, "long", 40, 40, 1200), 20000, "n")
	amp := Pick(t, "amp", 1.0, 0.3, 3)
	xl = t.Signal(n, amp, "l")
	yl = make([]float32, n)
	buf := t.Bool("buffer")
	if mono && e.mono != nil && t.Bool("mono") {
		t.Desc(" mono")
		if buf {
			e.monoBuf(xl, yl)
		} else {
			e.mono(xl, yl)
		}
		return xl, nil, yl, nil
	}
	xr = t.Signal(n, amp, "r")
	yr = make([]float32, n)
	t.Desc(" stereo")
	if buf {
		e.stereoBuf(xl, xr, yl, yr)
	} else {
		e.stereo(xl, xr, yl, yr)
	}
	return
}

func same(t *T, what string, i int, got float32, want, tol float64) {
	if !(math.Abs(float64(got)-want) <= tol+1e-37) { // denormal numbers are coarse
		t.Fatalf("%s: sample %d is %v, expected %v", what, i, got, want)
	}
}

func chorus(t *T) {
	sr := rate(t)
	c := modulation.NewChorus(sr)
	rate, depth, delay, mix, fb, spread, voices := 0.5, 2.0, 20.0, 0.5, 0.0, 1.0, 2
	var hl, hr line
	var fl, fr float64
	var ph [4]osc
	spreadOut := func() {
		for i := range ph {
			ph[i].p = float64(i) / float64(voices)
		}
		hl, hr, fl, fr = nil, nil, 0, 0
	}
	spreadOut()
	t.Desc("chorus at %v", sr)
	e := effect{
		stereo: func(l, r, a, b []float32) {
			for i := range l {
				a[i], b[i] = c.ProcessStereo(l[i], r[i])
			}
		},
		stereoBuf: c.ProcessStereoBuffer,
	}
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		switch t.Int(0, 10, "op") {
		case 0:
			v := freq(t)
			c.SetRate(v)
			rate = clamp(v, 0.01, 10)
		case 1:
			v := t.U(-1, 12, "depth")
			c.SetDepth(v)
			depth = clamp(v, 0, 10)
		case 2:
			v := Pick(t, "delay", 1.0, 50, t.U(0, 60, "d"), t.U(1, 5, "e"))
			c.SetDelay(v)
			delay = clamp(v, 1, 50)
		case 3:
			v := Pick(t, "mix", 0.0, 1, t.U(-0.2, 1.2, "m"))
			c.SetMix(v)
			mix = clamp(v, 0, 1)
		case 4:
			v := t.U(-0.2, 0.7, "feedback")
			c.SetFeedback(v)
			fb = clamp(v, 0, 0.5)
		case 5:
			v := t.U(-0.2, 1.2, "spread")
			c.SetSpread(v)
			spread = clamp(v, 0, 1)
		case 6:
			v := t.Int(0, 5, "voices")
			c.SetVoices(v)
			voices = min(4, max(1, v))
			spreadOut()
			t.Desc(" v%d", v)
		case 7:
			c.Reset()
			spreadOut()
			t.Desc(" reset")
		default:
			t.Desc(" [%.3g %.3g %.3g %.3g %.3g %.3g %d]", rate, depth, delay, mix, fb, spread, voices)
			t.Nontrivial(mix > 0 && voices > 1)
			var xl, xr, yl, yr []float32
			if t.Bool("mono") {
				xl = t.Signal(t.Size(1, 600, 20000, "n"), 1, "x")
				xr = xl
				yl, yr = make([]float32, len(xl)), make([]float32, len(xl))
				if t.Bool("buffer") {
					c.ProcessBuffer(xl, yl, yr)
				} else {
					for i := range xl {
						yl[i], yr[i] = c.Process(xl[i])
					}
				}
			} else {
				xl, xr, yl, yr = run(t, e, false)
			}
			for i := range xl {
				hl = append(hl, float64(xl[i])+fl*fb)
				hr = append(hr, float64(xr[i])+fr*fb)
				fl, fr = 0, 0
				for v := 0; v < voices; v++ {
					d := math.Max(1, (delay+depth*math.Sin(2*math.Pi*ph[v].next(rate/sr)))*sr/1000)
					l, r := hl.read(d), hr.read(d)
					if voices > 1 {
						a := ((float64(v)/float64(voices-1)-0.5)*spread + 0.5) * math.Pi / 2
						l *= math.Cos(a) / float64(voices)
						r *= math.Sin(a) / float64(voices)
					}
					fl += l
					fr += r
				}
				same(t, "left", i, yl[i], float64(xl[i])*(1-mix)+fl*mix, 1e-4)
				same(t, "right", i, yr[i], float64(xr[i])*(1-mix)+fr*mix, 1e-4)
			}
		}
	}
}

func flanger(t *T) {
	sr := rate(t)
	f := modulation.NewFlanger(sr)
	rate, depth, delay, fb, mix, manual, mode := 0.5, 2.0, 5.0, 0.5, 0.5, 0.5, false
	var h line
	var back float64
	var ph osc
	t.Desc("flanger at %v", sr)
	e := effect{
		mono: func(x, y []float32) {
			for i := range x {
				y[i] = f.Process(x[i])
			}
		},
		monoBuf: f.ProcessBuffer,
		stereo: func(l, r, a, b []float32) {
			for i := range l {
				a[i], b[i] = f.ProcessStereo(l[i], r[i])
			}
		},
		stereoBuf: f.ProcessStereoBuffer,
	}
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		switch t.Int(0, 11, "op") {
		case 0:
			v := freq(t)
			f.SetRate(v)
			rate = clamp(v, 0.01, 20)
		case 1:
			v := t.U(-1, 12, "depth")
			f.SetDepth(v)
			depth = clamp(v, 0, 10)
		case 2:
			v := Pick(t, "delay", 0.1, 10, t.U(0, 12, "d"), t.U(0.1, 1, "e"))
			f.SetDelay(v)
			delay = clamp(v, 0.1, 10)
		case 3:
			v := Pick(t, "mix", 0.0, 1, t.U(-0.2, 1.2, "m"))
			f.SetMix(v)
			mix = clamp(v, 0, 1)
		case 4:
			v := t.U(-1.2, 1.2, "feedback")
			f.SetFeedback(v)
			fb = clamp(v, -0.99, 0.99)
		case 5:
			v := t.U(-0.2, 1.2, "manual")
			f.SetManual(v)
			manual = clamp(v, 0, 1)
		case 6:
			mode = t.Bool("mode")
			f.SetManualMode(mode)
		case 7:
			f.Reset()
			h, back, ph.p = nil, 0, 0
			t.Desc(" reset")
		default:
			t.Desc(" [%.3g %.3g %.3g %.3g %.3g %.3g %v]", rate, depth, delay, mix, fb, manual, mode)
			t.Nontrivial(mix > 0 && fb != 0)
			xl, xr, yl, yr := run(t, e, true)
			for i := range xl {
				x := float64(xl[i])
				h = append(h, clamp(x+back*fb, -1, 1))
				m := 2*manual - 1
				if !mode {
					m = wave(modulation.WaveformTriangle, ph.next(rate/sr))
				}
				back = h.read(math.Max(0.1, (delay+depth*m)*sr/1000))
				same(t, "left", i, yl[i], x*(1-mix)+back*mix, 1e-3)
				if yr != nil {
					same(t, "right", i, yr[i], float64(xr[i])*(1-mix)-back*mix, 1e-3)
				}
			}
		}
	}
}

func phaser(t *T) {
	sr := t.Rate("sr")
	p := modulation.NewPhaser(sr)
	rate, depth, center, fb, mix, stages := 0.5, 0.5, 1000.0, 0.5, 0.5, 4
	var lo, hi float64
	span := func() {
		lo, hi = math.Max(20, center*(1-depth/2)), math.Min(sr/4, center*(1+depth/2))
	}
	span()
	st := make([]float64, 8)
	var back float64
	var ph osc
	t.Desc("phaser at %v", sr)
	e := effect{
		mono: func(x, y []float32) {
			for i := range x {
				y[i] = p.Process(x[i])
			}
		},
		monoBuf: p.ProcessBuffer,
		stereo: func(l, r, a, b []float32) {
			for i := range l {
				a[i], b[i] = p.ProcessStereo(l[i], r[i])
			}
		},
		stereoBuf: p.ProcessStereoBuffer,
	}
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		switch t.Int(0, 10, "op") {
		case 0:
			v := freq(t)
			p.SetRate(v)
			rate = clamp(v, 0.01, 10)
		case 1:
			v := t.U(-0.2, 1.2, "depth")
			p.SetDepth(v)
			depth = clamp(v, 0, 1)
			span()
		case 2:
			v := Pick(t, "center", 100.0, 4000, t.LogU(50, 6000, "c"))
			p.SetCenterFrequency(v)
			center = clamp(v, 100, 4000)
			span()
		case 3:
			a := t.Keep(t.LogU(10, sr/3, "lo"), lo, "lo")
			b := t.Keep(t.LogU(10, sr*0.45, "hi"), hi, "hi")
			p.SetFrequencyRange(a, b)
			lo = clamp(a, 20, sr/4)
			hi = math.Max(lo+100, math.Min(sr/2, b))
			center = (lo + hi) / 2
			t.Desc(" range%.4g-%.4g", a, b)
		case 4:
			v := Pick(t, "mix", 0.0, 1, t.U(-0.2, 1.2, "m"))
			p.SetMix(v)
			mix = clamp(v, 0, 1)
		case 5:
			v := t.U(-1.2, 1.2, "feedback")
			p.SetFeedback(v)
			fb = clamp(v, -0.99, 0.99)
		case 6:
			v := t.Int(0, 10, "stages")
			p.SetStages(v)
			stages = min(8, max(2, v)) / 2 * 2
			clear(st)
			t.Desc(" s%d", v)
		case 7:
			p.Reset()
			clear(st)
			back, ph.p = 0, 0
			t.Desc(" reset")
		default:
			t.Desc(" [%.3g %.3g %.4g..%.4g %.3g %.3g %d]", rate, depth, lo, hi, mix, fb, stages)
			t.Nontrivial(mix > 0 && fb != 0)
			xl, xr, yl, yr := run(t, e, true)
			for i := range xl {
				x := float64(xl[i])
				g := (wave(modulation.WaveformSine, ph.next(rate/sr)) + 1) / 2
				fr := math.Pow(lo, 1-g) * math.Pow(hi, g)
				tn := math.Tan(math.Pi * fr / sr)
				a := (tn - 1) / (tn + 1)
				w := clamp(x+back*fb, -1, 1)
				for k := 0; k < stages; k++ {
					y := a*w + st[k]
					st[k] = w - a*y
					w = y
				}
				back = w
				same(t, "left", i, yl[i], x*(1-mix)+w*mix, 2e-3)
				if yr != nil {
					same(t, "right", i, yr[i], float64(xr[i])*(1-mix)-w*mix, 2e-3)
				}
			}
		}
	}
}

func stage(t *T) {
	sr := t.Rate("sr")
	fc := t.LogU(sr/400, sr*0.4, "fc")
	f := modulation.NewAllPassFilter()
	for k := t.Int(0, 2, "before"); k > 0; k-- {
		f.SetFrequency(t.Keep(t.LogU(20, 3000, "fc0"), fc, "fc0"), t.Rate("sr0"))
	}
	f.SetFrequency(fc, sr)
	probe := Pick(t, "probe", fc, fc, t.LogU(sr/400, sr*0.45, "f"))
	t.Desc("stage at %v of %v, probed at %v", fc, sr, probe)
	t.Nontrivial(true)
	for round := 0; round < 2; round++ {
		n := 4000
		w := 2 * math.Pi * probe / sr
		var re, im float64
		from := n / 2
		// whole number of half periods would be needed for an exact projection; a Hann window suffices
		var norm float64
		for i := 0; i < n; i++ {
			y := float64(f.Process(float32(math.Sin(w * float64(i)))))
			if i >= from {
				h := 1 - math.Cos(2*math.Pi*float64(i-from)/float64(n-from))
				re += h * y * math.Sin(w*float64(i))
				im += h * y * math.Cos(w*float64(i))
				norm += h
			}
		}
		re, im = 2*re/norm, 2*im/norm
		if m := math.Hypot(re, im); !(math.Abs(m-1) <= 0.01) {
			t.Fatalf("gain %v at %v Hz", m, probe)
		}
		want := -2 * math.Atan(math.Tan(w/2)/math.Tan(math.Pi*fc/sr))
		if d := math.Abs(math.Remainder(math.Atan2(im, re)-want, 2*math.Pi)); d > 0.02 {
			t.Fatalf("a stage of %v Hz turns the phase at %v Hz by %v, expected %v", fc, probe, math.Atan2(im, re), want)
		}
		f.Reset()
		if f.Process(0) != 0 {
			t.Fatalf("a reset stage gives sound for silence")
		}
	}
}

func ringmod(t *T) {
	sr := rate(t)
	exact := t.Int(0, 3, "exact") == 0
	if exact {
		sr = Pick(t, "sr2", 1024.0, 32768, 65536)
	}
	r := modulation.NewRingModulator(sr)
	f, mix, w, lf, ld, on := 440.0, 0.5, modulation.WaveformSine, 0.5, 0.1, false
	if f > sr/2 {
		f = sr / 2
		r.SetFrequency(440)
	}
	if exact {
		f = sr / 64
		r.SetFrequency(f)
	}
	var car, mod osc
	e := effect{
		mono: func(x, y []float32) {
			for i := range x {
				y[i] = r.Process(x[i])
			}
		},
		monoBuf: r.ProcessBuffer,
		stereo: func(a, b, c, d []float32) {
			for i := range a {
				c[i], d[i] = r.ProcessStereo(a[i], b[i])
			}
		},
		stereoBuf: r.ProcessStereoBuffer,
	}
	t.Desc("ringmod at %v", sr)
	total := 0
	for ops := t.Size(1, 14, 84, "ops"); ops > 0; ops-- {
		op := t.Int(0, 9, "op")
		t.Nontrivial(op < 6 && total > 0)
		switch op {
		case 0:
			v := Pick(t, "hz", 0.0, 440, sr, t.LogU(0.05, sr/2, "f"))
			if exact {
				v = sr * float64(t.Int(1, 40, "f64")) / 64
			}
			r.SetFrequency(v)
			f = clamp(v, 0.1, sr/2)
		case 1:
			v := Pick(t, "mix", 0.0, 1, t.U(-0.2, 1.2, "m"))
			r.SetMix(v)
			mix = clamp(v, 0, 1)
		case 2:
			w = waveform(t)
			r.SetWaveform(w)
		case 3:
			on = t.Bool("on") && !exact
			r.EnableLFO(on)
			t.Desc(" lfo:%v", on)
		case 4:
			v := freq(t)
			r.SetLFORate(v)
			lf = clamp(v, 0.01, 20)
		case 5:
			v := t.U(-0.2, 1.2, "ld")
			r.SetLFODepth(v)
			ld = clamp(v, 0, 1)
		case 6:
			r.Reset()
			car.p, mod.p = 0, 0
			t.Desc(" reset")
		default:
			t.Desc(" [%.5g %.3g w%d %v %.3g %.3g]", f, mix, w, on, lf, ld)
			xl, xr, yl, yr := run(t, e, true)
			total += len(xl)
			for i := range xl {
				inc := f / sr
				if on {
					inc = f * (1 + ld*math.Sin(2*math.Pi*mod.next(lf/sr))) / sr
				}
				p := car.next(inc)
				ok := false
				var c float64
				for _, c = range values(exact, w, p) {
					a := Close(float64(yl[i]), float64(xl[i])*(1-mix+c*mix), 2e-6, 2e-6)
					b := yr == nil || Close(float64(yr[i]), float64(xr[i])*(1-mix+c*mix), 2e-6, 2e-6)
					ok = ok || a && b
				}
				if !ok {
					t.Fatalf("carrier %v at phase %v: sample %d of %v is %v, expected %v (stereo: %v)", w, p, i, xl[i], yl[i], float64(xl[i])*(1-mix+c*mix), yr != nil)
				}
			}
		}
	}
}

func tremolo(t *T) {
	sr := rate(t)
	m := modulation.NewTremolo(sr)
	f, depth, w, mode, stereo, off, smooth := 5.0, 0.5, modulation.WaveformSine, modulation.TremoloModeNormal, false, 0.0, false
	var l, r osc
	gl, gr, slack := 1.0, 1.0, 0.0
	coef := math.Exp(-1 / (0.005 * sr))
	e := effect{
		mono: func(x, y []float32) {
			for i := range x {
				y[i] = m.Process(x[i])
			}
		},
		monoBuf: m.ProcessBuffer,
		stereo: func(a, b, c, d []float32) {
			for i := range a {
				c[i], d[i] = m.ProcessStereo(a[i], b[i])
			}
		},
		stereoBuf: m.ProcessStereoBuffer,
	}
	align := func() {
		r.p = l.p
		if stereo {
			r.p = l.p + off
			r.p -= math.Floor(r.p)
		}
	}
	t.Desc("tremolo at %v", sr)
	monoRun := false
	for ops := t.Size(1, 16, 96, "ops"); ops > 0; ops-- {
		switch t.Int(0, 11, "op") {
		case 0:
			v := freq(t)
			m.SetRate(v)
			f = clamp(v, 0.01, 20)
		case 1:
			v := Pick(t, "depth", 1.0, t.U(-0.2, 1.2, "d"))
			m.SetDepth(v)
			depth = clamp(v, 0, 1)
		case 2:
			w = waveform(t)
			m.SetWaveform(w)
			smooth = w == modulation.WaveformSquare
		case 3:
			mode = Pick(t, "mode", modulation.TremoloModeNormal, modulation.TremoloModeHarmonic)
			m.SetMode(mode)
		case 4:
			stereo = t.Bool("stereo")
			m.SetStereo(stereo)
			align()
		case 5:
			v := Pick(t, "off", 0.5, 0.25, t.U(-0.2, 1.2, "o"))
			m.SetStereoPhase(v)
			off = clamp(v, 0, 1)
			align()
		case 6:
			smooth = t.Bool("smooth")
			m.EnableSmoothing(smooth)
		case 7:
			m.Reset()
			l.p, gl, gr, slack = 0, 1, 1, 0
			align()
			t.Desc(" reset")
			monoRun = false
		default:
			if monoRun && smooth { // the right gain of a mono run is nobody's business
				m.Reset()
				l.p, gl, gr, slack = 0, 1, 1, 0
				align()
				monoRun = false
			}
			t.Desc(" [%.4g %.3g w%d m%d st:%v %.3g sm:%v]", f, depth, w, mode, stereo, off, smooth)
			t.Nontrivial(depth > 0)
			xl, xr, yl, yr := run(t, e, !stereo)
			monoRun = monoRun || yr == nil
			var reported []float64
			gain := func(p float64) float64 {
				v := wave(w, p)
				if mode == modulation.TremoloModeHarmonic {
					return 1 - depth*math.Abs(v)
				}
				return 1 - depth*(1-v)/2
			}
			for i := range xl {
				pl := l.next(f / sr)
				pr := pl
				if yr != nil && stereo {
					pr = r.next(f / sr)
				}
				amb := 0.0
				if jump(w, pl) || jump(w, pr) {
					amb = depth
				}
				a, b := gain(pl), gain(pr)
				if smooth {
					slack = slack*coef + amb*(1-coef)
					gl = a + (gl-a)*coef
					gr = b + (gr-b)*coef
				} else {
					gl, gr, slack = a, b, amb
				}
				same(t, "left", i, yl[i], float64(xl[i])*gl, math.Abs(float64(xl[i]))*(1e-5+slack))
				if yr != nil {
					same(t, "right", i, yr[i], float64(xr[i])*gr, math.Abs(float64(xr[i]))*(1e-5+slack))
				}
			}
			reported = append(reported, m.GetCurrentGain())
			if !Close(reported[0], gl, 1e-5+slack, 0) {
				t.Fatalf("the reported gain is %v, applied was %v", reported[0], gl)
			}
		}
	}
}
