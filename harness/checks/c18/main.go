// C18: the limiter never exceeds its ceiling.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"vst3verif/ref"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C18",
		Subs: []Sub{
			{Name: "ceiling", Quick: 14000, Thorough: 300000, Fn: ceiling,
				Rule: "any signal up to +40 dB in mono, buffer and stereo runs with ceiling, release, lookahead and true-peak changes and resets at any time: no sample above the ceiling, none louder than its input, sign kept, both channels at one gain; non-trivial: input above the ceiling"},
			{Name: "transparent", Quick: 34000, Thorough: 170000, Fn: transparent,
				Rule: "signals that stay below the ceiling come out bit for bit, delayed by the lookahead, in mono and stereo; non-trivial: lookahead on"},
			{Name: "model", Quick: 9300, Thorough: 100000, Fn: model,
				Rule: "gain and meter sample by sample against detector, delay and infinite ratio in double precision; non-trivial: input above the ceiling"},
			{Name: "recovery", Quick: 1500, Thorough: 40000, Fn: recovery,
				Rule: "after a peak the gain returns to unity within 12 release times; non-trivial: peak above the ceiling"},
		},
	})
}

type lim struct {
	p       *dynamics.Limiter
	sr      float64
	ceil    float64
	release float64
	la      int
	tp      bool
}

func newLim(t *T) *lim {
	sr := t.Rate("sr")
	t.Desc("sr=%v", sr)
	return &lim{p: dynamics.NewLimiter(sr), sr: sr, ceil: -0.3, release: 0.05, la: int(0.005 * sr), tp: true}
}

// set changes a setting and reports whether the lookahead delay restarted.
func (l *lim) set(t *T) bool {
	switch t.Int(0, 3, "set") {
	case 0:
		l.ceil = Pick(t, "ck", t.U(-40, 6, "ceil"), t.U(-95, 40, "ceil2"), 0)
		l.p.SetThreshold(l.ceil)
		l.ceil = math.Min(0, l.ceil)
		t.Desc(" ceil=%.4g", l.ceil)
	case 1:
		l.release = Pick(t, "rel", t.LogU(0.001, 0.5, "relv"), 0, -0.1, t.LogU(0.5, 20, "rlong"))
		l.p.SetRelease(l.release)
		l.release = math.Max(0.001, l.release)
		t.Desc(" rel=%.4g", l.release)
	case 2:
		s := Pick(t, "la", 0, t.U(0, 0.001, "las"), t.U(0, 0.02, "las"), -1)
		l.p.SetLookahead(s)
		n := int(math.Max(0, math.Min(0.01, s)) * l.sr)
		t.Desc(" la=%d", n)
		if n != l.la {
			l.la = n
			return true
		}
	case 3:
		l.tp = t.Bool("tp")
		l.p.SetTruePeak(l.tp)
		t.Desc(" tp=%v", l.tp)
	}
	return false
}

func loudSignal(t *T, n int) []float32 {
	return t.Signal(n, Pick(t, "amp", 1.0, 1, 0.5, 4, 100), "x")
}

func ceiling(t *T) {
	l := newLim(t)
	var dl, dr []float32
	restart := func() { dl, dr = make([]float32, l.la), make([]float32, l.la) }
	restart()
	mode := t.Int(0, 2, "mode")
	for op := t.Size(1, 12, 72, "ops"); op > 0; op-- {
		switch t.Int(0, 4, "op") {
		case 0, 1:
			if l.set(t) {
				restart()
			}
		case 2:
			if t.Int(0, 2, "reset") == 0 {
				l.p.Reset()
				restart()
			}
		default:
			n := t.Size(1, 250, 20000, "n")
			x := loudSignal(t, n)
			y := make([]float32, n)
			c := FromDB(l.ceil)
			chk := func(ch string, y, x []float32, d *[]float32) {
				for i := range y {
					*d = append(*d, x[i])
					in := (*d)[0]
					*d = (*d)[1:]
					if !(math.Abs(float64(y[i])) <= c*(1+1e-6)) {
						t.Fatalf("%ssample %d is %v, above the ceiling %v (%v dB; release %v, lookahead %d, true peak %v at %v Hz)", ch, i, y[i], c, l.ceil, l.release, l.la, l.tp, l.sr)
					}
					mag := math.Abs(float64(in)) // denormal numbers may round to zero
					if !(math.Abs(float64(y[i])) <= mag*(1+1e-6)+1e-44) || y[i]*in < 0 || in == 0 && y[i] != 0 || mag > 1e-36 && y[i] == 0 {
						t.Fatalf("%ssample %d is %v for an input of %v %d samples earlier", ch, i, y[i], in, l.la)
					}
					t.Nontrivial(math.Abs(float64(in)) > c)
				}
			}
			switch mode {
			case 0:
				for i := range x {
					y[i] = l.p.Process(x[i])
				}
				chk("", y, x, &dl)
			case 1:
				l.p.ProcessBuffer(x, y)
				chk("", y, x, &dl)
			case 2:
				r := loudSignal(t, n)
				z := make([]float32, n)
				l.p.ProcessStereo(x, r, y, z)
				ol, or := append(Clone(dl), x...), append(Clone(dr), r...)
				chk("left ", y, x, &dl)
				chk("right ", z, r, &dr)
				for i := range y {
					if !Close(float64(y[i])*float64(or[i]), float64(z[i])*float64(ol[i]), 1e-9, 1e-5) {
						t.Fatalf("the channels get different gains at sample %d: %v from %v, %v from %v", i, y[i], ol[i], z[i], or[i])
					}
				}
			}
			if m := l.p.GetGainReduction(); !(m >= 0) || math.IsInf(m, 0) {
				t.Fatalf("a reduction of %v dB is reported", m)
			}
		}
	}
}

func transparent(t *T) {
	l := newLim(t)
	for k := t.Int(0, 5, "sets"); k > 0; k-- {
		l.set(t)
	}
	l.p.Reset()
	n := t.Size(1, 1200, 20000, "n")
	amp := FromDB(l.ceil) * (1 - 1e-5)
	x, r := t.Signal(n, amp, "x"), t.Signal(n, amp, "r")
	y, z := make([]float32, n), make([]float32, n)
	stereo := t.Bool("stereo")
	if stereo {
		l.p.ProcessStereo(x, r, y, z)
	} else {
		l.p.ProcessBuffer(x, y)
	}
	t.Nontrivial(l.la > 0)
	for i := range y {
		var wl, wr float32
		if i >= l.la {
			wl, wr = x[i-l.la], r[i-l.la]
		}
		if y[i] != wl || stereo && z[i] != wr {
			t.Fatalf("below the ceiling (%v dB, lookahead %d, true peak %v), sample %d is %v/%v, expected %v/%v unchanged", l.ceil, l.la, l.tp, i, y[i], z[i], wl, wr)
		}
	}
	if m := l.p.GetGainReduction(); m != 0 {
		t.Fatalf("below the ceiling a reduction of %v dB is reported", m)
	}
}

func model(t *T) {
	l := newLim(t)
	det, pk := ref.NewDetector(l.sr, 0), ref.NewDetector(l.sr, 0)
	det.Attack, pk.Attack, pk.Release = 0.0001, 0.0001, 0.001
	last := 0.0
	var dl, dr []float64
	restart := func() { dl, dr = make([]float64, l.la), make([]float64, l.la) }
	restart()
	stereo := t.Bool("stereo")
	for op := t.Size(1, 12, 72, "ops"); op > 0; op-- {
		switch t.Int(0, 4, "op") {
		case 0, 1:
			if l.set(t) {
				restart()
			}
		case 2:
			if t.Int(0, 2, "reset") == 0 {
				l.p.Reset()
				restart()
				det.Reset()
				pk.Reset()
				last = 0
			}
		default:
			n := t.Size(1, 250, 20000, "n")
			x := loudSignal(t, n)
			r := Clone(x)
			y, z := make([]float32, n), make([]float32, n)
			if stereo {
				r = loudSignal(t, n)
				l.p.ProcessStereo(x, r, y, z)
			} else {
				l.p.ProcessBuffer(x, y)
			}
			det.Release = l.release
			c := FromDB(l.ceil)
			for i := range x {
				a, b := float64(x[i]), float64(r[i])
				lev := math.Max(math.Abs(a), math.Abs(b))
				if l.tp {
					lev = math.Max(lev, last)
					last = math.Abs(a)
				}
				dl, dr = append(dl, a), append(dr, b)
				a, b = dl[0], dr[0]
				dl, dr = dl[1:], dr[1:]
				if l.tp && l.la > 0 && !stereo {
					lev = math.Max(lev, pk.Detect(a))
				}
				e := math.Max(det.Detect(lev), math.Abs(a))
				if stereo {
					e = math.Max(e, math.Abs(b))
				}
				g := math.Min(1, c/math.Max(e, 1e-300))
				t.Nontrivial(g < 0.99)
				if !Close(float64(y[i]), a*g, 1e-7, 1e-4) || stereo && !Close(float64(z[i]), b*g, 1e-7, 1e-4) {
					t.Fatalf("limiter (ceiling %v dB, release %v, lookahead %d, true peak %v at %v Hz, stereo %v): sample %d is %v/%v, expected a gain of %v on %v/%v", l.ceil, l.release, l.la, l.tp, l.sr, stereo, i, y[i], z[i], g, a, b)
				}
				if i == n-1 && !Close(l.p.GetGainReduction(), -DB(g), 1e-3, 0) {
					t.Fatalf("a gain of %v dB is reported as a reduction of %v", DB(g), l.p.GetGainReduction())
				}
			}
		}
	}
}

func recovery(t *T) {
	l := newLim(t)
	for k := t.Int(0, 5, "sets"); k > 0; k-- {
		l.set(t)
	}
	if l.sr*l.release > 10000 {
		l.release = 0.05
		l.p.SetRelease(l.release)
	}
	c := FromDB(l.ceil)
	pk := t.LogU(0.5, 30, "peak") * c
	t.Nontrivial(pk > c)
	for i := t.Int(1, 50, "len"); i > 0; i-- {
		l.p.Process(float32(pk))
	}
	v := float32(c * t.U(0.01, 0.9, "after"))
	for i := 0; i < l.la+2; i++ {
		l.p.Process(v)
	}
	prev := float32(0)
	n := int(12*l.release*l.sr) + int(0.02*l.sr)
	for i := 0; i < n; i++ {
		prev = l.p.Process(v)
	}
	if prev != v || l.p.GetGainReduction() != 0 {
		t.Fatalf("12 release times after a peak of %v over a ceiling of %v, a level of %v comes out as %v (reduction %v dB)", pk, c, v, prev, l.p.GetGainReduction())
	}
}
