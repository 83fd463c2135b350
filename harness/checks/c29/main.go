// C29: reverbs follow their networks, stay stable and fall silent.
package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C29",
		Subs: []Sub{
			{Name: "parts", Quick: 32000, Thorough: 160000, Fn: parts,
				Rule: "comb, all-pass and damping filters of any length with settings changed at any time and resets against their recurrences in double precision; non-trivial: runs longer than the delay"},
			{Name: "schroeder", Quick: 12000, Thorough: 60000, Fn: schroeder,
				Rule: "histories of setting changes, mono and stereo runs and resets against four parallel combs and two diffusers in double precision; non-trivial: the tail had begun"},
			{Name: "freeverb", Quick: 4000, Thorough: 40000, Fn: freeverb,
				Rule: "histories of setting changes, freezing, presets, mono and stereo runs and resets against eight combs and four diffusers per side in double precision; non-trivial: the tail had begun"},
			{Name: "fdn", Quick: 1500, Thorough: 40000, Fn: fdn,
				Rule: "networks of 1 to 16 delays with histories of setting changes, modulation, presets, mono and stereo runs and resets against an orthogonal network in double precision; non-trivial: the tail had begun"},
			{Name: "decay", Quick: 250, Thorough: 5000, Fn: decay,
				Rule: "any reverb at any setting after a loud burst: the tail dies away and never grows; non-trivial: a long room"},
			{Name: "freeze", Quick: 400, Thorough: 2000, Fn: freeze,
				Rule: "a frozen reverb keeps the level of its tail for good and lets nothing new in; non-trivial: every case"},
		},
		Assumptions: []string{"sample rates of at least 1 kHz, so that every delay has a length"},
	})
}

// settles keeps a damping away from where float32 rounding adds up for long
// and even the lowest tones stay for many seconds.
func settles(d, most float64) float64 {
	if d > most && d < 1 {
		return most
	}
	return d
}

func clamp(v, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, v)) }

// ring is a delay of n samples.
type ring struct {
	buf []float64
	i   int
}

func (r *ring) out() float64 { return r.buf[r.i] }
func (r *ring) in(v float64) {
	r.buf[r.i] = v
	r.i = (r.i + 1) % len(r.buf)
}

func newRing(n int) ring { return ring{buf: make([]float64, n)} }

// comb also bounds what float32 rounding can have added to what it holds.
type comb struct {
	ring
	lp  float64
	err ring
	elp float64
	// for the last value returned
	slack float64
}

// ulp is more than two float32 roundings lose.
const ulp = 2.5e-7

func (c *comb) run(x, fb, damp float64) float64 {
	y := c.out()
	c.lp = y*(1-damp) + c.lp*damp
	c.in(x + fb*c.lp)
	if len(c.err.buf) != len(c.buf) {
		c.err = newRing(len(c.buf))
	}
	e := c.err.out()
	c.elp = e*(1-damp) + c.elp*damp + ulp*math.Abs(c.lp)
	c.err.in(c.elp*math.Abs(fb) + ulp*(math.Abs(x)+math.Abs(fb*c.lp)))
	c.slack = e
	return y
}

type allpass struct{ ring }

func (a *allpass) run(x, fb float64) float64 {
	v := a.out()
	a.in(x + fb*v)
	return v - x
}

func rate(t *T) float64 { return Pick(t, "sr", 1000.0, 2000, 2000, 4000, 1500, t.Rate("srv")) }

// meter compares with a tolerance relative to the loudest value so far.
type meter struct{ peak, slack float64 }

// note raises the loudest value by one that sums up to the output, where it may
// cancel against others.
func (m *meter) note(v float64) { m.peak = math.Max(m.peak, math.Abs(v)) }

func (m *meter) cmp(t *T, what string, i int, got float32, want float64) {
	m.peak = math.Max(m.peak, math.Abs(want))
	if !(math.Abs(float64(got)-want) <= 3e-5*math.Max(m.peak, 1e-3)+m.slack) {
		t.Fatalf("%s: sample %d is %v, expected %v", what, i, got, want)
	}
}

func parts(t *T) {
	n := t.Int(1, 60, "len")
	var m meter
	kind := t.Int(0, 2, "part")
	t.Desc("part %d of %d:", kind, n)
	var run func(float32) float32
	var model func(float64) float64
	var set, reset func()
	switch kind {
	case 0:
		c := reverb.NewCombFilter(n)
		fb, damp := 0.5, 0.5
		p := comb{ring: newRing(n)}
		run, model = c.Process, func(x float64) float64 { y := p.run(x, fb, damp); m.slack = p.slack; return y }
		set = func() {
			v := Pick(t, "fb", 1.0, 0, t.U(-0.2, 1.2, "f"))
			c.SetFeedback(v)
			fb = clamp(v, 0, 1)
			damp = settles(t.U(0, 1, "damp"), 0.9)
			c.SetDamping(damp)
		}
		reset = func() { c.Reset(); p = comb{ring: newRing(n)} }
	case 1:
		a := reverb.NewAllPassFilter(n)
		fb := 0.5
		p := allpass{newRing(n)}
		run, model = a.Process, func(x float64) float64 { return p.run(x, fb) }
		set = func() { fb = t.U(-0.9, 0.9, "fb"); a.SetFeedback(fb) }
		reset = func() { a.Reset(); p = allpass{newRing(n)} }
	default:
		d := reverb.NewDampingFilter()
		damp, y := 0.5, 0.0
		run, model = d.Process, func(x float64) float64 { y = x*(1-damp) + y*damp; return y }
		set = func() {
			v := settles(Pick(t, "damp", 0.0, 1, t.U(-0.2, 1.2, "d")), 0.99)
			d.SetDamping(v)
			damp = clamp(v, 0, 1)
		}
		reset = func() { d.Reset(); y = 0 }
	}
	for ops := t.Size(1, 6, 36, "ops"); ops > 0; ops-- {
		switch t.Int(0, 4, "op") {
		case 0, 1:
			set()
		case 2:
			reset()
			t.Desc(" reset")
		}
		x := t.Signal(t.Size(1, 200, 20000, "n"), 1, "x")
		t.Nontrivial(len(x) > n)
		for i, v := range x {
			m.cmp(t, "filter", i, run(v), model(float64(v)))
		}
	}
}

// play runs a drawn stretch through a reverb and its model.
func play(t *T, m *meter, sr float64, mono func(float32) float32, stereo func(l, r float32) (float32, float32), wetMono func(x float64) float64, wetStereo func(l, r float64) (float64, float64)) int {
	n := t.Size(1, int(clamp(sr*0.15, 100, 1500)), 20000, "n")
	amp := Pick(t, "amp", 1.0, 1, 4)
	l := t.Signal(n, amp, "l")
	if t.Bool("mono") {
		t.Desc(" mono")
		for i := range l {
			m.cmp(t, "mono", i, mono(l[i]), wetMono(float64(l[i])))
		}
		return n
	}
	r := l
	if t.Bool("differs") {
		r = t.Signal(n, amp, "r")
	}
	t.Desc(" stereo")
	for i := range l {
		a, b := stereo(l[i], r[i])
		wa, wb := wetStereo(float64(l[i]), float64(r[i]))
		m.cmp(t, "left", i, a, wa)
		m.cmp(t, "right", i, b, wb)
	}
	return n
}

func schroeder(t *T) {
	sr := rate(t)
	s := reverb.NewSchroeder(sr)
	room, damp, wet, dry, width := 0.5, 0.5, 0.3, 0.7, 1.0
	var c [4]comb
	var a [2]allpass
	clear := func() {
		for i, ms := range []float64{29.7, 37.1, 41.1, 43.7} {
			c[i] = comb{ring: newRing(int(ms * sr / 1000))}
		}
		for i, ms := range []float64{5, 1.7} {
			a[i] = allpass{newRing(int(ms * sr / 1000))}
		}
	}
	clear()
	var m meter
	tail := func(x float64) float64 {
		var y float64
		for i := range c {
			v := c[i].run(x, 0.28+0.7*room, damp) / 4
			m.note(v * wet)
			y += v
		}
		for i := range a {
			y = a[i].run(y, 0.5)
		}
		return y
	}
	total := 0
	t.Desc("schroeder at %v", sr)
	for ops := t.Size(2, 12, 72, "ops"); ops > 0; ops-- {
		op := t.Int(0, 8, "op")
		v := Pick(t, "v", 0.0, 1, t.U(-0.2, 1.2, fmt.Sprint("vv", op)), t.U(0, 1, fmt.Sprint("vu", op)))
		u := clamp(v, 0, 1)
		switch op {
		case 0:
			s.SetRoomSize(v)
			room = u
		case 1:
			u = settles(u, 0.98)
			s.SetDamping(u + v - clamp(v, 0, 1))
			damp = u
		case 2:
			s.SetWetLevel(v)
			wet = u
		case 3:
			s.SetDryLevel(v)
			dry = u
		case 4:
			s.SetWidth(v)
			width = u
		case 5:
			s.Reset()
			clear()
			total = 0
			t.Desc(" reset")
		default:
			t.Desc(" [%.3g %.3g %.3g %.3g %.3g]", room, damp, wet, dry, width)
			total += play(t, &m, sr, s.Process, s.ProcessStereo, func(x float64) float64 { return x*dry + tail(x)*wet },
				func(l, r float64) (float64, float64) {
					w := tail((l+r)/2) * wet * (1 - (1-width)/2)
					return l*dry + w, r*dry + w
				})
			t.Nontrivial(total > len(c[0].buf) && wet > 0)
		}
	}
}

type freeModel struct {
	c [2][8]comb
	a [2][4]allpass
}

func newFree(sr float64) *freeModel {
	f := &freeModel{}
	k := sr / 44100
	for side, add := range []int{0, 23} {
		for i, n := range []int{1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617} {
			f.c[side][i] = comb{ring: newRing(int(float64(n+add) * k))}
		}
		for i, n := range []int{556, 441, 341, 225} {
			f.a[side][i] = allpass{newRing(int(float64(n+add) * k))}
		}
	}
	return f
}

func freeverb(t *T) {
	sr := rate(t)
	s := reverb.NewFreeverb(sr)
	m := newFree(sr)
	room, damp, wet, dry, width, mode := 0.5, 0.5, 1.0/3, 0.0, 1.0, 0.0
	var mt meter
	tail := func(l, r float64) (float64, float64) {
		fb, d, gain := 0.7+0.28*room, 0.4*damp, 0.015
		if mode >= 0.5 {
			fb, d, gain = 1, 0, 0
		}
		x := (l + r) * gain
		var y [2]float64
		for side := range y {
			for i := range m.c[side] {
				v := m.c[side][i].run(x, fb, d)
				mt.note(v * wet)
				y[side] += v
			}
			for i := range m.a[side] {
				y[side] = m.a[side][i].run(y[side], 0.5)
			}
		}
		w1, w2 := wet*(1+width)/2, wet*(1-width)/2
		return y[0]*w1 + y[1]*w2 + l*dry, y[1]*w1 + y[0]*w2 + r*dry
	}
	total := 0
	t.Desc("freeverb at %v", sr)
	for ops := t.Size(2, 14, 84, "ops"); ops > 0; ops-- {
		op := t.Int(0, 11, "op")
		v := Pick(t, "v", 0.0, 1, t.U(-0.2, 1.2, fmt.Sprint("vv", op)), t.U(0, 1, fmt.Sprint("vu", op)))
		u := clamp(v, 0, 1)
		switch op {
		case 0:
			s.SetRoomSize(v)
			room = u
		case 1:
			s.SetDamping(v)
			damp = u
		case 2:
			s.SetWetLevel(v)
			wet = u
		case 3:
			s.SetDryLevel(v)
			dry = u
		case 4:
			s.SetWidth(v)
			width = u
		case 5:
			if t.Bool("near") {
				v = clamp(mode+t.U(-0.15, 0.15, "step"), 0, 1)
				if t.Bool("across") {
					v = 0.5 + (0.5-mode)*t.U(0, 0.3, "side")
				}
				u = v
			}
			s.SetMode(v)
			mode = u
			t.Desc(" mode%v", v)
		case 6:
			s.Reset()
			m = newFree(sr)
			total = 0
			t.Desc(" reset")
		case 7:
			k := t.Int(0, 3, "preset")
			[]func(){s.SetPresetSmallRoom, s.SetPresetMediumHall, s.SetPresetLargeHall, s.SetPresetCathedral}[k]()
			p := [][]float64{{0.3, 0.75, 0.25, 0.75, 0.5}, {0.6, 0.5, 0.35, 0.65, 0.75}, {0.85, 0.3, 0.4, 0.6, 1}, {0.95, 0.1, 0.5, 0.5, 1}}[k]
			room, damp, wet, dry, width = p[0], p[1], p[2], p[3], p[4]
			t.Desc(" preset%d", k)
		default:
			t.Desc(" [%.3g %.3g %.3g %.3g %.3g %.3g]", room, damp, wet, dry, width, mode)
			total += play(t, &mt, sr, s.Process, s.ProcessStereo, func(x float64) float64 { l, _ := tail(x, x); return l }, tail)
			t.Nontrivial(total > 2*len(m.c[0][0].buf) && wet > 0)
		}
	}
}

var primes = []int{23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89}

type fdnModel struct {
	n      int
	delay  []int
	hist   [][]float64
	lp     []float64
	phase  []float64
	matrix [][]float64
}

func newFDN(n int, sr float64) *fdnModel {
	f := &fdnModel{n: n, delay: make([]int, n), hist: make([][]float64, n), lp: make([]float64, n), phase: make([]float64, n)}
	for i := range f.delay {
		f.delay[i] = int(sr*0.01) * primes[i%16] / 23
		f.phase[i] = float64(i) * 2 * math.Pi / float64(n)
	}
	for i := 0; i < n; i++ {
		row := make([]float64, n)
		for j := range row {
			switch {
			case n == 4 || n == 8:
				row[j] = 1 / math.Sqrt(float64(n))
				if bits.OnesCount(uint(i&j))%2 == 1 {
					row[j] = -row[j]
				}
			default:
				row[j] = -2 / float64(n)
				if i == j {
					row[j]++
				}
			}
		}
		f.matrix = append(f.matrix, row)
	}
	return f
}

func (f *fdnModel) read(i int, d float64) float64 {
	at := func(k int) float64 {
		if j := len(f.hist[i]) - k; k > 0 && j >= 0 {
			return f.hist[i][j]
		}
		return 0
	}
	k := math.Floor(d)
	return at(int(k))*(1-(d-k)) + at(int(k)+1)*(d-k)
}

func (f *fdnModel) run(x, decay, damp, diff, mod, sr float64) float64 {
	g := 1 / math.Sqrt(float64(f.n))
	out := make([]float64, f.n)
	var sum float64
	for i := range out {
		d := float64(f.delay[i])
		if mod > 0 {
			d += math.Sin(f.phase[i]) * 5 * mod
			f.phase[i] += math.Pi / sr
		}
		out[i] = f.read(i, d)
		sum += out[i] * g
	}
	k := 0.4 + 0.58*decay
	for i := range out {
		v := out[i] * (1 - diff) * k
		for j := range out {
			v += out[j] * f.matrix[i][j] * diff * k
		}
		f.lp[i] = (x*g+v)*(1-damp) + f.lp[i]*damp
		f.hist[i] = append(f.hist[i], f.lp[i])
	}
	return sum
}

func (f *fdnModel) last(i int) float64 { return f.hist[i][len(f.hist[i])-1] }

func fdn(t *T) {
	sr := rate(t)
	n := Pick(t, "delays", 4, 8, 16, t.Size(1, 12, 40, "n"))
	s := reverb.NewFDN(n, sr)
	m := newFDN(n, sr)
	decay, damp, diff, mod, wet, dry := 0.5, 0.5, 0.5, 0.0, 0.3, 0.7
	var mt meter
	tail := func(x float64) float64 {
		y := m.run(x, decay, damp, diff, mod, sr)
		for i := range m.hist {
			mt.note(m.last(i) * wet / 4)
		}
		return y
	}
	total := 0
	t.Desc("fdn %d at %v", n, sr)
	for ops := t.Size(2, 14, 84, "ops"); ops > 0; ops-- {
		op := t.Int(0, 11, "op")
		v := Pick(t, "v", 0.0, 1, t.U(-0.2, 1.2, fmt.Sprint("vv", op)), t.U(0, 1, fmt.Sprint("vu", op)))
		u := clamp(v, 0, 1)
		switch op {
		case 0:
			s.SetDecay(v)
			decay = u
		case 1:
			s.SetDamping(v)
			damp = u
		case 2:
			s.SetDiffusion(v)
			diff = u
		case 3:
			s.SetModulation(v)
			mod = u
		case 4:
			s.SetWetLevel(v)
			wet = u
		case 5:
			s.SetDryLevel(v)
			dry = u
		case 6:
			s.Reset()
			m = newFDN(n, sr)
			total = 0
			t.Desc(" reset")
		case 7:
			k := t.Int(0, 3, "preset")
			[]func(){s.SetPresetSmallRoom, s.SetPresetMediumHall, s.SetPresetLargeHall, s.SetPresetCathedral}[k]()
			p := [][]float64{{0.2, 0.8, 0.7, 0.1, 0.25, 0.75}, {0.5, 0.5, 0.85, 0.15, 0.35, 0.65}, {0.8, 0.3, 0.9, 0.2, 0.4, 0.6}, {0.95, 0.1, 0.95, 0.25, 0.5, 0.5}}[k]
			decay, damp, diff, mod, wet, dry = p[0], p[1], p[2], p[3], p[4], p[5]
			t.Desc(" preset%d", k)
		default:
			t.Desc(" [%.3g %.3g %.3g %.3g %.3g %.3g]", decay, damp, diff, mod, wet, dry)
			total += play(t, &mt, sr, s.Process, s.ProcessStereo, func(x float64) float64 { return x*dry + tail(x)*wet },
				func(l, r float64) (float64, float64) {
					a := tail((l + r) / 2)
					b := a
					if n >= 2 {
						a += 0.3 * m.last(0)
						b += 0.3 * m.last(1)
					}
					return l*dry + a*wet, r*dry + b*wet
				})
			t.Nontrivial(total > 2*m.delay[0] && wet > 0)
		}
	}
}

// any makes one of the reverbs with drawn settings, wet only.
func anyReverb(t *T, sr float64) (run func(l, r float32) (float32, float32), long bool) {
	size, damp := Pick(t, "size", 1.0, t.U(0, 1, "s")), settles(Pick(t, "damp", 0.0, 1, t.U(0, 1, "d")), 0.97)
	long = size > 0.7
	switch k := t.Int(0, 2, "reverb"); k {
	case 0:
		s := reverb.NewSchroeder(sr)
		s.SetRoomSize(size)
		s.SetDamping(damp)
		s.SetDryLevel(0)
		s.SetWetLevel(1)
		run = s.ProcessStereo
		t.Desc("schroeder")
	case 1:
		s := reverb.NewFreeverb(sr)
		s.SetRoomSize(size)
		s.SetDamping(damp)
		s.SetWidth(t.U(0, 1, "width"))
		s.SetWetLevel(1)
		run = s.ProcessStereo
		t.Desc("freeverb")
	default:
		n := Pick(t, "delays", 4, 8, 16, t.Size(1, 12, 40, "n"))
		s := reverb.NewFDN(n, sr)
		s.SetDecay(size)
		s.SetDamping(damp)
		s.SetDiffusion(Pick(t, "diff", 0.0, 1, t.U(0, 1, "f")))
		s.SetModulation(Pick(t, "mod", 0.0, t.U(0, 1, "m")))
		s.SetDryLevel(0)
		s.SetWetLevel(1)
		run = s.ProcessStereo
		t.Desc("fdn%d", n)
	}
	t.Desc(" size %.4g damping %.4g", size, damp)
	return
}

func decay(t *T) {
	const sr = 2000.0
	run, long := anyReverb(t, sr)
	t.Nontrivial(long)
	var start, end, peak float64
	x := t.Signal(600, 1, "x")
	const n = 50000 // 25 s
	for i := 0; i < n; i++ {
		var v float32
		if i < len(x) {
			v = x[i]
		}
		l, r := run(v, -v/2)
		e := float64(l)*float64(l) + float64(r)*float64(r)
		if !Finite(e) {
			t.Fatalf("sample %d is %v, %v", i, l, r)
		}
		peak = math.Max(peak, math.Sqrt(e))
		switch {
		case i < 4000:
			start += e
		case i >= n-4000:
			end += e
		}
	}
	if peak > 60 {
		t.Fatalf("the output reaches %v for a full scale input", peak)
	}
	if end > start*1e-4+1e-20 {
		t.Fatalf("energy %v at the start, %v after 25 s", start, end)
	}
}

func freeze(t *T) {
	sr := Pick(t, "sr", 2000.0, 4000)
	s := reverb.NewFreeverb(sr)
	s.SetRoomSize(t.U(0, 1, "room"))
	s.SetDamping(t.U(0, 1, "damp"))
	s.SetWidth(t.U(0, 1, "width"))
	s.SetWetLevel(1)
	x := t.Signal(800, 1, "x")
	for _, v := range x {
		s.ProcessStereo(v, v)
	}
	s.SetMode(1)
	t.Nontrivial(true)
	noise := t.Bool("noise")
	t.Desc("frozen at %v, input %v", sr, noise)
	var e [4]float64
	for w := range e {
		for i := 0; i < 10000; i++ {
			var v float32
			if noise {
				v = x[i%len(x)]
			}
			l, r := s.ProcessStereo(v, v/2)
			e[w] += float64(l)*float64(l) + float64(r)*float64(r)
		}
	}
	for w := 2; w < 4; w++ {
		// the combs beat against each other, so windows differ somewhat
		if e[w] > 3*e[1]+1e-18 || e[w] < e[1]/3-1e-18 {
			t.Fatalf("the energy of a frozen tail changes: %v", e)
		}
	}
	if e[1] == 0 {
		for _, v := range x {
			if v != 0 {
				t.Fatalf("a frozen reverb is silent")
			}
		}
	}
}
