// C22: envelope generators and level detectors.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"vst3verif/ref"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C22",
		Subs: []Sub{
			{Name: "adsr", Quick: 12000, Thorough: 120000, Fn: adsr,
				Rule: "histories of trigger, release, reset and setting changes at any stage, run by sample, buffer and multiplication, against the exponential segments in double precision; non-trivial: decay reached or a setting changed while sounding"},
			{Name: "stuck", Quick: 2500, Thorough: 60000, Fn: stuck,
				Rule: "after any history, a triggered envelope held long enough sustains at the sustain level and a released one becomes idle; non-trivial: settings changed while sounding"},
			{Name: "ar", Quick: 10000, Thorough: 80000, Fn: ar,
				Rule: "attack-release envelopes and followers over histories and signals against their one-pole form; non-trivial: trigger and release"},
			{Name: "detector", Quick: 12000, Thorough: 120000, Fn: detector,
				Rule: "all detector modes and types over signals with setting changes, resets and mode switches against a recomputed window and one-pole form; non-trivial: level rises and falls"},
			{Name: "loud", Quick: 12000, Thorough: 60000, Fn: loud,
				Rule: "long loud and silent passages over nine decades: RMS detection stays finite and agrees with the recomputed window; non-trivial: a fall by 60 dB or more"},
		},
		Assumptions: []string{"an envelope sample within 1e-6 of a stage boundary may fall on either side of it, the history ends there"},
	})
}

const (
	idle = iota
	attack
	decay
	sustain
	release
)

type model struct {
	sr, a, d, s, r float64
	stage          int
	v              float64
}

func k(sec, sr float64) float64 { return math.Exp(-1 / (sec * sr)) }

// next advances the model and reports whether a boundary was too close to call.
func (m *model) next() bool {
	near := false
	switch m.stage {
	case attack:
		m.v = 1 + (m.v-1)*k(m.a, m.sr)
		near = math.Abs(m.v-0.999) < 1e-9
		if m.v >= 0.999 {
			m.v, m.stage = 1, decay
		}
	case decay:
		m.v = m.s + (m.v-m.s)*k(m.d, m.sr)
		near = math.Abs(m.v-m.s-0.001) < 1e-9
		if m.v <= m.s+0.001 {
			m.v, m.stage = m.s, sustain
		}
	case sustain:
		m.v = m.s
	case release:
		m.v *= k(m.r, m.sr)
		near = math.Abs(m.v-0.001) < 1e-9
		if m.v <= 0.001 {
			m.v, m.stage = 0, idle
		}
	case idle:
		m.v = 0
	}
	return near
}

func at(v, lo float64) float64 { return math.Max(lo, v) }

func (m *model) set(t *T, e *envelope.ADSR) {
	tm := func(l string) float64 {
		return Pick(t, l, t.LogU(0.0001, 0.05, l+"v"), t.LogU(0.0005, 0.01, l+"v"), 0, -1, t.LogU(0.05, 100, l+"long"))
	}
	lv := func() float64 { return Pick(t, "s", t.U(0, 1, "sv"), t.U(0, 1, "sv"), 0, 1, -0.5, 1.5) }
	switch t.Int(0, 4, "set") {
	case 0:
		v := tm("a")
		e.SetAttack(v)
		m.a = at(v, 0.001)
		t.Desc(" a=%.4g", v)
	case 1:
		v := tm("d")
		e.SetDecay(v)
		m.d = at(v, 0.001)
		t.Desc(" d=%.4g", v)
	case 2:
		v := lv()
		e.SetSustain(v)
		m.s = math.Min(1, at(v, 0))
		t.Desc(" s=%.4g", v)
	case 3:
		v := tm("r")
		e.SetRelease(v)
		m.r = at(v, 0.001)
		t.Desc(" r=%.4g", v)
	case 4:
		a, d, s, r := tm("a"), tm("d"), lv(), tm("r")
		a, d, s, r = t.Keep(a, m.a, "a"), t.Keep(d, m.d, "d"), t.Keep(s, m.s, "s"), t.Keep(r, m.r, "r")
		e.SetADSR(a, d, s, r)
		m.a, m.d, m.s, m.r = at(a, 0.001), at(d, 0.001), math.Min(1, at(s, 0)), at(r, 0.001)
		t.Desc(" adsr=%.4g,%.4g,%.4g,%.4g", a, d, s, r)
	}
}

func newADSR(t *T) (*envelope.ADSR, *model) {
	sr := t.Rate("sr")
	t.Desc("sr=%v", sr)
	return envelope.New(sr), &model{sr: sr, a: 0.01, d: 0.1, s: 0.7, r: 0.3}
}

func adsr(t *T) {
	e, m := newADSR(t)
	for op := t.Size(2, 25, 150, "ops"); op > 0; op-- {
		switch t.Int(0, 8, "op") {
		case 0, 1:
			e.Trigger()
			m.stage = attack
			t.Desc(" on")
		case 2:
			e.Release()
			if m.stage != idle {
				m.stage = release
			}
			t.Desc(" off")
		case 3:
			if t.Int(0, 3, "reset") == 0 {
				e.Reset()
				m.stage, m.v = idle, 0
				t.Desc(" reset")
			}
		case 4, 5:
			m.set(t, e)
			t.Nontrivial(m.stage != idle)
		default:
			n := t.Size(1, 2500, 20000, "n")
			if t.Int(0, 2, "short") == 0 {
				n = 1 + n%40
			}
			b := make([]float32, n)
			how := t.Int(0, 2, "how")
			g := float32(1)
			switch how {
			case 0:
				for i := range b {
					b[i] = e.Next()
				}
			case 1:
				for i := range b {
					b[i] = 9
				}
				e.Process(b)
			case 2:
				g = float32(t.U(-2, 2, "g"))
				for i := range b {
					b[i] = g
				}
				e.ProcessMultiply(b)
			}
			t.Desc(" *%d", n)
			for i := range b {
				if m.next() {
					return
				}
				if !Close(float64(b[i]), m.v*float64(g), 2e-6, 0) {
					t.Fatalf("sample %d of a run of %d (a=%v d=%v s=%v r=%v at %v Hz, stage %d): %v, expected %v", i, n, m.a, m.d, m.s, m.r, m.sr, m.stage, b[i]/g, m.v)
				}
			}
			t.Nontrivial(m.stage == decay || m.stage == sustain)
		}
		if int(e.GetStage()) != m.stage || e.IsActive() != (m.stage != idle) {
			t.Fatalf("the stage is %d (active %v), expected %d (a=%v d=%v s=%v r=%v, value %v)", e.GetStage(), e.IsActive(), m.stage, m.a, m.d, m.s, m.r, m.v)
		}
		t.Class(map[int]string{idle: "idle", attack: "attack", decay: "decay", sustain: "sustain", release: "release"}[m.stage])
	}
}

func stuck(t *T) {
	e, m := newADSR(t)
	for op := t.Size(1, 12, 72, "ops"); op > 0; op-- {
		switch t.Int(0, 4, "op") {
		case 0:
			e.Trigger()
		case 1:
			e.Release()
		case 2, 3:
			m.set(t, e)
			t.Nontrivial(e.IsActive())
		case 4:
			for n := t.Size(1, 500, 20000, "n"); n > 0; n-- {
				if v := e.Next(); !(v >= 0 && v <= 1) {
					t.Fatalf("the envelope is %v", v)
				}
			}
		}
	}
	if m.a+m.d+m.r > 0.5 { // not worth waiting for
		m.a, m.d, m.r = 0.02, 0.03, 0.01
		e.SetADSR(m.a, m.d, m.s, m.r)
	}
	if t.Bool("on") {
		e.Trigger()
	}
	want := m.s
	if e.GetStage() == envelope.StageIdle || e.GetStage() == envelope.StageRelease {
		want = 0
	}
	last := float32(0)
	run := func(sec float64) {
		for n := int(sec*m.sr) + 5; n > 0; n-- {
			last = e.Next()
		}
	}
	run(8*(m.a+m.d+m.r) + 0.001)
	if !Close(float64(last), want, 1e-6, 0) {
		t.Fatalf("after 8 time constants of every stage (a=%v d=%v s=%v r=%v) the envelope is at %v, expected %v", m.a, m.d, m.s, m.r, last, want)
	}
	e.Release()
	run(8 * m.r)
	if e.IsActive() || last != 0 {
		t.Fatalf("8 release times (%v s) after its release the envelope is active (%v) at %v", m.r, e.IsActive(), last)
	}
}

func ar(t *T) {
	sr := t.Rate("sr")
	e, f := envelope.NewAR(sr), envelope.NewFollower(sr)
	a, r, fa, fr := 0.01, 0.1, 0.01, 0.1
	tgt, v, fv := 0.0, 0.0, 0.0
	on := false
	t.Desc("sr=%v", sr)
	for op := t.Size(2, 20, 120, "ops"); op > 0; op-- {
		switch t.Int(0, 7, "op") {
		case 0:
			e.Trigger()
			tgt, on = 1, true
		case 1:
			t.Nontrivial(on)
			e.Release()
			tgt = 0
		case 2:
			x := t.LogU(0.00005, 0.1, "a")
			e.SetAttack(x)
			f.SetAttack(x)
			a, fa = at(x, 0.001), at(x, 0.0001)
		case 3:
			x := t.LogU(0.00005, 0.1, "r")
			e.SetRelease(x)
			f.SetRelease(x)
			r, fr = at(x, 0.001), at(x, 0.0001)
		default:
			n := t.Size(1, 300, 20000, "n")
			b := make([]float32, n)
			how := t.Int(0, 2, "how")
			g := float32(1)
			switch how {
			case 0:
				for i := range b {
					b[i] = e.Next()
				}
			case 1:
				e.Process(b)
			case 2:
				g = -1.5
				for i := range b {
					b[i] = g
				}
				e.ProcessMultiply(b)
			}
			c := a
			if tgt == 0 {
				c = r
			}
			for i := range b {
				v = tgt + (v-tgt)*k(c, sr)
				if !Close(float64(b[i]), v*float64(g), 2e-6, 0) {
					t.Fatalf("attack-release envelope (a=%v r=%v at %v Hz, target %v): sample %d is %v, expected %v", a, r, sr, tgt, i, b[i]/g, v)
				}
			}
			x := t.Signal(n, 1, "x")
			y := make([]float32, n)
			if t.Bool("single") {
				for i := range x {
					y[i] = f.Follow(x[i])
				}
			} else {
				f.Process(x, y)
			}
			for i := range x {
				l := math.Abs(float64(x[i]))
				if l > fv {
					fv = l + (fv-l)*k(fa, sr)
				} else {
					fv = l + (fv-l)*k(fr, sr)
				}
				if !Close(float64(y[i]), fv, 2e-6, 0) {
					t.Fatalf("follower (a=%v r=%v at %v Hz): sample %d is %v, expected %v", fa, fr, sr, i, y[i], fv)
				}
			}
		}
	}
}

func detector(t *T) {
	sr := t.Rate("sr")
	if t.Int(0, 9, "lowrate") == 0 {
		sr = Pick(t, "sr2", 100.0, 333, 334, 1000)
	}
	mode, typ := t.Int(0, 2, "mode"), 0
	d := envelope.NewDetector(sr, envelope.DetectorMode(mode))
	m := ref.NewDetector(sr, mode)
	t.Desc("sr=%v mode=%d", sr, mode)
	rms := mode == 1
	for op := t.Size(2, 20, 120, "ops"); op > 0; op-- {
		switch t.Int(0, 11, "op") {
		case 0:
			typ = t.Int(0, 2, "type")
			d.SetType(envelope.DetectorType(typ))
			m.Type = typ
			t.Desc(" type=%d", typ)
		case 1:
			m.Attack = Pick(t, "ak", t.LogU(0.00005, 0.1, "a"), t.LogU(0.00005, 0.1, "a1"), 0, -1, t.LogU(0.1, 20, "along"))
			d.SetAttack(m.Attack)
			t.Desc(" a=%.4g", m.Attack)
		case 2:
			m.Release = Pick(t, "rk", t.LogU(0.00005, 0.3, "r"), t.LogU(0.00005, 0.3, "r1"), 0, -1, t.LogU(0.3, 20, "rlong"))
			d.SetRelease(m.Release)
			t.Desc(" r=%.4g", m.Release)
		case 3:
			m.Hold = Pick(t, "hk", t.U(-0.001, 0.01, "h"), 0, t.U(0, 0.0005, "h1"), t.U(0.01, 2, "h2"))
			d.SetHold(m.Hold)
			m.Hold = math.Max(0, m.Hold)
			t.Desc(" h=%.4g", m.Hold)
		case 4:
			m.Attack, m.Release = t.Keep(t.LogU(0.00005, 0.1, "a"), m.Attack, "a"), t.Keep(t.LogU(0.00005, 0.3, "r"), m.Release, "r")
			d.SetTimeConstants(m.Attack, m.Release)
			t.Desc(" a=%.4g r=%.4g", m.Attack, m.Release)
		case 5:
			ms := t.U(0, 6, "ms")
			d.SetRMSWindow(ms)
			m.Window(ms)
			t.Desc(" win=%.4g", ms)
		case 6:
			if t.Int(0, 2, "reset") == 0 {
				d.Reset()
				m.Reset()
				t.Desc(" reset")
			}
		case 7:
			// a window already used for RMS keeps what it heard, so only
			// the first switch to RMS is compared
			// (or a repetition of the mode already set)
			if nm := t.Int(0, 2, "mode2"); nm == 2 || nm == 0 || !rms || nm == mode {
				mode = nm
				rms = rms || nm == 1
				d.SetMode(envelope.DetectorMode(mode))
				m.Mode = mode
				t.Desc(" mode=%d", mode)
			}
		default:
			n := t.Size(1, 150, 20000, "n")
			x := t.Signal(n, Pick(t, "amp", 1.0, 1, 0.1, 4), "x")
			y := make([]float32, n)
			switch t.Int(0, 2, "how") {
			case 0:
				d.Process(x, y)
			case 1:
				for i := range x {
					y[i] = d.Detect(x[i])
				}
			case 2:
				d.ProcessSidechain(make([]float32, n), x, y)
			}
			up, down := false, false
			for i := range x {
				was := m.Env()
				w := m.Detect(float64(x[i]))
				up, down = up || w > was, down || w < was
				// closer than rounding to the level that is taken at once
				if !Close(float64(y[i]), w, 2e-6, 2e-6) {
					if m.Tie { // and with it when the hold began
						return
					}
					if typ != 2 && mode != 1 && y[i] == float32(math.Abs(float64(x[i]))) && math.Abs(math.Abs(float64(x[i]))-2*w) < 1e-6 {
						return
					}
					t.Fatalf("detector mode %d type %d (a=%v r=%v h=%v window=%d at %v Hz): sample %d of %v gives %v, expected %v", mode, typ, m.Attack, m.Release, m.Hold, m.Win, sr, i, x[i], y[i], w)
				}
			}
			t.Nontrivial(up && down)
		}
		if !Close(float64(d.GetEnvelope()), m.Env(), 2e-6, 2e-6) {
			t.Fatalf("the envelope is reported as %v, expected %v", d.GetEnvelope(), m.Env())
		}
		db := d.GetEnvelopeDB()
		if m.Env() == 0 && !(db <= -96) || m.Env() > 1e-4 && !Close(float64(db), DB(m.Env()), 0.2, 0) || db != db {
			t.Fatalf("an envelope of %v is reported as %v dB", m.Env(), db)
		}
	}
}

func loud(t *T) {
	sr := t.Rate("sr")
	d := envelope.NewDetector(sr, envelope.ModeRMS)
	win := t.U(0.1, 5, "ms")
	d.SetRMSWindow(win)
	n := int(sr * win / 1000)
	if n < 1 {
		n = 1
	}
	d.SetAttack(0.0001)
	d.SetRelease(0.0001)
	t.Desc("sr=%v win=%v", sr, win)
	prev := 0.0
	for ph := t.Int(2, 8, "phases"); ph > 0; ph-- {
		amp := Pick(t, "amp", 0.0, 1e-6, 1e-3, 0.1, 1, 30, 1000)
		t.Nontrivial(amp*1000 <= prev)
		prev = math.Max(prev, amp)
		x := t.Signal(n+40*(1+int(sr/10000)), amp, "x")
		last := float32(0)
		for i, v := range x {
			last = d.Detect(v)
			if !(last >= 0) || math.IsInf(float64(last), 0) {
				t.Fatalf("the RMS level is %v at sample %d of a passage at level %v", last, i, amp)
			}
		}
		// after a full window and 40 release times the loudest passage only
		// shows as rounding
		if m := float64(last); m > amp*1.0001+prev*2e-6 {
			t.Fatalf("the RMS level is %v in a passage at level %v after one at %v", last, amp, prev)
		}
	}
}
