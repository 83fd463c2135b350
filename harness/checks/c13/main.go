// C13: results do not depend on how the audio is cut into calls.
package main

import (
	"fmt"
	"math"
	"strings"

	"vst3verif/procs"
	"vst3verif/vk"
)

// event is one step of a history: a setting, a reset, or audio.
type event struct {
	set   int // index of a setting, or -1
	v     procs.V
	reset bool
	group string
	l, r  []float32
}

func modes(k *procs.Live, group string) (ms []procs.Mode) {
	for _, m := range k.Run {
		if m.Group == group {
			ms = append(ms, m)
		}
	}
	return
}

func groups(k *procs.Live) (gs []string) {
	seen := map[string]bool{}
	for _, m := range k.Run {
		if !seen[m.Group] {
			seen[m.Group] = true
			gs = append(gs, m.Group)
		}
	}
	return
}

func drawV(t *vk.T) (v procs.V) {
	for i := range v {
		v[i] = t.U(0, 1, "v")
	}
	return
}

// kinds lists the processors whose output is determined.
func kinds(reset bool) (ks []procs.Kind) {
	for _, k := range procs.All {
		if k.Random || reset && k.New(48000, procs.V{}).Reset == nil {
			continue
		}
		ks = append(ks, k)
	}
	return
}

var all, resettable = kinds(false), kinds(true)

// history draws a history for a kind.
func history(t *vk.T, k procs.Kind, sr float64, cv procs.V, resets bool, maxTotal int) (evs []event, samples int) {
	live := k.New(sr, cv)
	gs := groups(live)
	group := gs[t.Int(0, len(gs)-1, "group")]
	n := t.Int(2, 10, "events")
	if t.Int(0, 2, "configure") == 0 { // every setting, once
		for s := range live.Set {
			v := drawV(t)
			evs = append(evs, event{set: s, v: v})
			t.Desc(" %s%.3v", live.Set[s].Name, v)
		}
	}
	if maxTotal > 300 && t.Int(0, 5, "long") == 0 {
		maxTotal = procs.MaxBlock
	}
	for i := 0; i < n; i++ {
		switch c := t.Int(0, 9, "kind"); {
		case c < 4 && len(live.Set) > 0:
			s := t.Int(0, len(live.Set)-1, "setting")
			v := drawV(t)
			evs = append(evs, event{set: s, v: v})
			t.Desc(" %s%.3v", live.Set[s].Name, v)
		case c == 4 && resets && live.Reset != nil:
			evs = append(evs, event{set: -1, reset: true})
			t.Desc(" reset")
		default:
			if t.Int(0, 3, "change") == 0 {
				group = gs[t.Int(0, len(gs)-1, "group")]
			}
			m := t.Int(1, maxTotal, "samples")
			t.Desc(" %s", group)
			e := event{set: -1, group: group, l: t.Signal(m, t.LogU(1e-3, 2, "amp"), "l"), r: t.Signal(m, t.LogU(1e-3, 2, "amp"), "r")}
			evs = append(evs, e)
			samples += m
		}
	}
	return
}

// readings compares what two instances report about themselves.
func readings(a, b *procs.Live) string {
	for i, r := range a.Read {
		x, y := r.Fn(), b.Read[i].Fn()
		if x == y || math.IsNaN(x) && math.IsNaN(y) {
			continue
		}
		if d := math.Abs(x - y); !(d <= 1e-5*math.Max(1, math.Abs(y))) {
			return fmt.Sprintf("%s is reported as %v and %v", r.Name, x, y)
		}
	}
	return ""
}

// apply runs one event; cut gives the block lengths and pick chooses the mode of each.
func apply(l *procs.Live, e event, cut []int, pick func(n int) int) (a, b []float32) {
	switch {
	case e.set >= 0:
		l.Set[e.set].Fn(e.v)
	case e.reset:
		l.Reset()
	default:
		a, b = vk.Clone(e.l), vk.Clone(e.r)
		ms := modes(l, e.group)
		at := 0
		for _, n := range cut {
			m := ms[pick(len(ms))]
			m.Fn(a[at:at+n:at+n], b[at:at+n:at+n])
			at += n
		}
		stereo := false
		for _, m := range ms {
			stereo = stereo || m.Stereo
		}
		if !stereo {
			b = nil
		}
	}
	return
}

func first(n int) int { return 0 }

func same(a, b []float32, tol float64) string {
	if i, ok := vk.SameBits(a, b); !ok {
		if m, ok := vk.CloseSlice(a, b, 0, tol); !ok {
			return fmt.Sprintf("%s (first difference at sample %d)", m, i)
		}
	}
	return ""
}

// tolerances, relative to the loudest sample: entry points may round differently
const (
	cutTol   = 1e-5
	resetTol = 1e-6
)

func energy(x []float32) bool {
	for _, v := range x {
		if v != 0 {
			return true
		}
	}
	return false
}

func pickKind(t *vk.T, ks []procs.Kind) procs.Kind {
	k := ks[t.Int(0, len(ks)-1, "processor")]
	t.Class(k.Name)
	t.Desc("%s", k.Name)
	return k
}

// blocks: the same history, cut differently and through other entry points.
func blocks(t *vk.T) {
	k := pickKind(t, all)
	sr := t.Rate("sr")
	cv := drawV(t)
	evs, _ := history(t, k, sr, cv, true, 600)
	a, b := k.New(sr, cv), k.New(sr, cv)
	for i, e := range evs {
		pa, pb := []int{len(e.l)}, t.Partition(len(e.l), "cut")
		fa := t.Int(0, 7, "first")
		al, ar := apply(a, e, pa, func(n int) int { return fa % n })
		var used []string
		bl, br := apply(b, e, pb, func(n int) int {
			m := t.Int(0, n-1, "mode")
			used = append(used, modes(b, e.group)[m].Name)
			return m
		})
		if m := same(al, bl, cutTol); m != "" {
			t.Fatalf("%s at %g Hz, event %d, %s: one block through %q and blocks %v through %v differ: left %s", k.Name, sr, i, e.group, modes(a, e.group)[fa%len(modes(a, e.group))].Name, pb, used, m)
		}
		if m := same(ar, br, cutTol); m != "" {
			t.Fatalf("%s at %g Hz, event %d, %s: one block through %q and blocks %v through %v differ: right %s", k.Name, sr, i, e.group, modes(a, e.group)[fa%len(modes(a, e.group))].Name, pb, used, m)
		}
		if m := readings(a, b); m != "" {
			t.Fatalf("%s at %g Hz, event %d, %s: one block and blocks %v through %v: the %s", k.Name, sr, i, e.group, pb, used, m)
		}
		t.Nontrivial(len(pb) > 1 && energy(al))
	}
}

// reset: after a reset an instance behaves as a fresh one with the same settings.
func reset(t *vk.T) {
	k := pickKind(t, resettable)
	sr := t.Rate("sr")
	cv := drawV(t)
	evs, _ := history(t, k, sr, cv, true, 600)
	t.Desc(" RESET")
	after, n := history(t, k, sr, cv, false, 600)
	a, b := k.New(sr, cv), k.New(sr, cv)
	// choosing the random waveform draws from its sequence, which a reset restarts
	both := t.Bool("reset the fresh one too") || k.Name == "lfo" || k.Name == "tremolo"
	audio := false
	if bad := t.Int(0, 15, "bad"); bad < 4 { // a reset also recovers from bad input
		x := float32([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 3e38}[bad])
		t.Desc(" input %v", x)
		for _, e := range evs {
			if len(e.l) > 0 {
				at := t.Int(0, len(e.l)-1, "at")
				e.l[at] = x
				e.r[at] = x
			}
		}
	}
	for _, e := range evs {
		apply(a, e, []int{len(e.l)}, first)
		if e.set >= 0 {
			name := b.Set[e.set].Name
			if name == "trigger" || name == "let go" || name == "position" {
				continue
			}
			apply(b, e, nil, first)
		}
		audio = audio || energy(e.l)
	}
	a.Reset()
	if both {
		b.Reset()
	}
	if m := readings(a, b); m != "" {
		t.Fatalf("%s at %g Hz: right after a reset, not as a fresh instance with the same settings: the %s", k.Name, sr, m)
	}
	for i, e := range after {
		p := []int{len(e.l)}
		al, ar := apply(a, e, p, first)
		bl, br := apply(b, e, p, first)
		if m := same(al, bl, resetTol); m != "" {
			t.Fatalf("%s at %g Hz: after a reset, event %d, %s: not as a fresh instance with the same settings: left %s", k.Name, sr, i, e.group, m)
		}
		if m := same(ar, br, resetTol); m != "" {
			t.Fatalf("%s at %g Hz: after a reset, event %d, %s: not as a fresh instance with the same settings: right %s", k.Name, sr, i, e.group, m)
		}
		if m := readings(a, b); m != "" {
			t.Fatalf("%s at %g Hz: after a reset, event %d, %s: not as a fresh instance with the same settings: the %s", k.Name, sr, i, e.group, m)
		}
	}
	t.Nontrivial(audio && n > 0)
}

// alone: an instance is not affected by what others do.
func alone(t *vk.T) {
	k := pickKind(t, all)
	o := k
	if t.Bool("other kind") {
		o = pickKind(t, all)
	}
	sr := t.Rate("sr")
	cv := drawV(t)
	evs, n := history(t, k, sr, cv, true, 300)
	t.Desc(" WITH")
	osr, ocv := t.Rate("other sr"), drawV(t)
	oevs, m := history(t, o, osr, ocv, true, 300)
	type out struct{ l, r []float32 }
	var want []out
	a := k.New(sr, cv)
	for _, e := range evs {
		l, r := apply(a, e, []int{len(e.l)}, first)
		want = append(want, out{l, r})
	}
	early := t.Bool("early")
	var x *procs.Live
	if early {
		x = o.New(osr, ocv)
	}
	b := k.New(sr, cv)
	if !early {
		x = o.New(osr, ocv)
	}
	j := 0
	for i, e := range evs {
		for j < len(oevs) && t.Bool("other first") {
			apply(x, oevs[j], []int{len(oevs[j].l)}, first)
			j++
		}
		l, r := apply(b, e, []int{len(e.l)}, first)
		if m := same(want[i].l, l, 0) + same(want[i].r, r, 0); m != "" {
			t.Fatalf("%s at %g Hz: event %d, %s: differs when a %s runs beside it: %s", k.Name, sr, i, e.group, o.Name, strings.TrimSpace(m))
		}
	}
	t.Nontrivial(n > 0 && m > 0 && j > 0)
}

func main() {
	vk.Main(vk.Check{ID: "C13", Subs: []vk.Sub{
		{Name: "blocks", Rule: "a processor of any kind, a rate, a history of settings, resets and runs of audio; one instance gets each run as one block through one entry point, another gets it cut at drawn places through drawn entry points (sample, buffer, in place, separate output, mono, stereo, multi-channel); the outputs must agree within 1e-5 of the loudest sample. Non-trivial: a run with output cut into two or more blocks", Quick: 30000, Thorough: 500000, Fn: blocks},
		{Name: "reset", Rule: "an instance lives through a drawn history and is reset; a new one gets only the settings; both then live through a second history with the same output. Non-trivial: audio before and after the reset", Quick: 20000, Thorough: 400000, Fn: reset},
		{Name: "alone", Rule: "an instance lives through a drawn history, alone and with another instance living through its own beside it; the outputs must agree. Non-trivial: the other ran during the history", Quick: 8000, Thorough: 200000, Fn: alone},
	}})
}
