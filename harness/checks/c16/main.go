// C16: no input makes a processor panic, hang or blow up.
package main

import (
	"math"

	"vst3verif/procs"
	"vst3verif/vk"
)

var kinds = append(append([]procs.Kind{}, procs.All...), procs.Meters...)

func draw(t *vk.T, bad bool) (v procs.V) {
	for i := range v {
		v[i] = t.U(0, 1, "v")
	}
	if bad && t.Int(0, 3, "bad") == 0 {
		v[t.Int(0, 3, "which")] = vk.Pick(t, "value", -0.01, 1.01, -1, 2, -10, 10, math.Inf(1), math.Inf(-1))
	}
	return
}

var odd = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-40, -1e-38, float32(math.Copysign(0, -1)), 1e20, 1e10}

func signal(t *vk.T, n int, bad bool) []float32 {
	if n == 0 {
		return nil
	}
	x := t.Signal(n, t.LogU(1e-3, 4, "amp"), "x")
	if bad {
		for k := t.Int(0, 4, "odd"); k > 0; k-- {
			v := odd[t.Int(0, len(odd)-1, "odd value")]
			at := t.Int(0, n-1, "at")
			t.Desc(" [%d]=%v", at, v)
			if t.Bool("run") {
				for i := at; i < n; i++ {
					x[i] = v
				}
			}
			x[at] = v
		}
	}
	return x
}

func finite(x []float32) int {
	for i, v := range x {
		if !vk.Finite(float64(v)) {
			return i
		}
	}
	return -1
}

// anything: any samples and any settings.
func anything(t *vk.T) {
	k := kinds[t.Int(0, len(kinds)-1, "processor")]
	t.Class(k.Name)
	sr := t.Rate("sr")
	cv := draw(t, false)
	t.Desc("%s %g %.2v", k.Name, sr, cv)
	var l *procs.Live
	if m := vk.Catch(func() { l = k.New(sr, cv) }); m != "" {
		t.Fatalf("%s: creating it panics: %s", k.Name, m)
	}
	n := t.Int(2, 12, "events")
	badSet := t.Bool("bad settings")
	for i := 0; i < n; i++ {
		switch c := t.Int(0, 9, "event"); {
		case c < 5 && len(l.Set) > 0:
			s := l.Set[t.Int(0, len(l.Set)-1, "setting")]
			v := draw(t, badSet)
			t.Desc(" %s%.3v", s.Name, v)
			if m := vk.Catch(func() { s.Fn(v) }); m != "" {
				t.Fatalf("%s: setting %s to %v panics: %s", k.Name, s.Name, v, m)
			}
		case c == 5 && l.Reset != nil:
			t.Desc(" reset")
			if m := vk.Catch(l.Reset); m != "" {
				t.Fatalf("%s: a reset panics: %s", k.Name, m)
			}
		default:
			m := l.Run[t.Int(0, len(l.Run)-1, "mode")]
			n := t.Int(0, 300, "samples")
			t.Desc(" %s/%s", m.Group, m.Name)
			x, y := signal(t, n, true), signal(t, n, true)
			if msg := vk.Catch(func() { m.Fn(x, y) }); msg != "" {
				t.Fatalf("%s: processing %d samples through %s/%s panics: %s", k.Name, n, m.Group, m.Name, msg)
			}
			t.Nontrivial(n > 0)
		}
		for _, r := range l.Read {
			if m := vk.Catch(func() { r.Fn() }); m != "" {
				t.Fatalf("%s: reading its %s panics: %s", k.Name, r.Name, m)
			}
		}
	}
}

// bounded: settings in range and ordinary input give finite, bounded output.
func bounded(t *vk.T) { hold(t, procs.All[t.Int(0, len(procs.All)-1, "processor")], false) }

// clamped: so do settings out of range where the range is enforced.
func clamped(t *vk.T) { hold(t, procs.Find(clamping[t.Int(0, len(clamping)-1, "processor")]), true) }

// clamping lists the processors that enforce the range of every setting.
var clamping = []string{"waveshaper", "tube", "bitcrusher", "schroeder", "tape", "freeverb", "fdn", "tremolo", "ring modulator", "phaser", "flanger", "limiter", "gate", "chorus", "detector", "reverb damping", "follower", "adsr", "ar", "modulated delay"}

// limits are some 20 times the peaks seen over 10^5 cases.
func limit(name string) float64 {
	switch name {
	case "biquad": // 24 dB at a Q of 20, retuned while ringing
		return 1e5
	case "parameter smoother": // the input times the values of three smoothers
		return 1201
	case "waveshaper": // any output level, any drive
		return 1e4
	}
	return 1000
}

func hold(t *vk.T, k procs.Kind, out bool) {
	t.Class(k.Name)
	sr := t.Rate("sr")
	cv := draw(t, false)
	t.Desc("%s %g %.2v", k.Name, sr, cv)
	l := k.New(sr, cv)
	n := t.Int(2, 12, "events")
	still := t.Bool("still")
	peak := 0.0
	for i := 0; i < n; i++ {
		if len(l.Set) > 0 && (!still || i == 0) {
			for j := t.Int(0, 3, "settings"); j > 0; j-- {
				s := l.Set[t.Int(0, len(l.Set)-1, "setting")]
				v := draw(t, out)
				t.Desc(" %s%.3v", s.Name, v)
				s.Fn(v)
			}
		}
		m := l.Run[t.Int(0, len(l.Run)-1, "mode")]
		n := t.Int(1, procs.MaxBlock, "samples")
		t.Desc(" %s/%s", m.Group, m.Name)
		x, y := signal(t, n, false), signal(t, n, false)
		for j := t.Int(1, 8, "times"); j > 0; j-- {
			a, b := vk.Clone(x), vk.Clone(y)
			m.Fn(a, b)
			for _, o := range [][]float32{a, b} {
				if at := finite(o); at >= 0 {
					t.Fatalf("%s at %g Hz: %s/%s gives %v at sample %d of %d for finite input", k.Name, sr, m.Group, m.Name, o[at], at, n)
				}
				for _, v := range o {
					peak = math.Max(peak, math.Abs(float64(v)))
				}
			}
			t.Nontrivial(true)
		}
		for _, r := range l.Read {
			if v := r.Fn(); math.IsNaN(v) || !out && math.Abs(v) > 1e6 {
				t.Fatalf("%s at %g Hz: its %s is %v after finite input", k.Name, sr, r.Name, v)
			}
		}
	}
	if peak > limit(k.Name) {
		t.Fatalf("%s at %g Hz: the output reaches %g for input of at most 4", k.Name, sr, peak)
	}
}

func main() {
	vk.Main(vk.Check{ID: "C16", Subs: []vk.Sub{
		{Name: "anything", Rule: "a processor or meter of any kind, settings in and out of range (also infinite), resets, and blocks of 0 to 300 samples with NaN, infinities, huge values and denormals at drawn places; nothing may panic or hang. Non-trivial: samples were processed", Quick: 20000, Thorough: 600000, Fn: anything},
		{Name: "bounded", Rule: "a processor of any kind with settings in range, changed or left alone, and blocks of ordinary input of up to 12 dB over full scale held for up to 16000 samples; every output sample must be finite and below a limit some 20 times the highest peak seen (1000 for most). Non-trivial: samples were processed", Quick: 5000, Thorough: 200000, Fn: bounded},
		{Name: "clamped", Rule: "as bounded, with settings out of range too, infinite ones included, for the processors that enforce the range of every setting. Non-trivial: samples were processed", Quick: 3000, Thorough: 120000, Fn: clamped},
	}})
}
