// C09: voice allocation never hangs, cuts or loses a note it should not.
package main

import (
	"fmt"
	"sort"

	"github.com/justyntemme/vst3go/pkg/framework/voice"
	"github.com/justyntemme/vst3go/pkg/midi"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C09",
		Subs: []Sub{
			{Name: "poly", Quick: 60000, Thorough: 500000, Fn: func(t *T) { history(t, voice.ModePoly) },
				Rule: "note, pedal, voice-limit and stealing-mode histories over few notes (including 0 and 127) with voices that release instantly, slowly or end by themselves, every call to a voice checked against a model of key, pedal and voice state; ends with all keys and the pedal up and no voice left sounding unreleased; non-trivial: a steal, a sustained key pressed again or a voice that ended by itself"},
			{Name: "mono", Quick: 31000, Thorough: 200000, Fn: func(t *T) { history(t, voice.ModeMono) },
				Rule: "the same histories with one voice that follows the last key; non-trivial: as poly, or overlapping keys"},
			{Name: "legato", Quick: 33000, Thorough: 200000, Fn: func(t *T) { history(t, voice.ModeLegato) },
				Rule: "the same histories where overlapping keys do not retrigger; non-trivial: overlapping keys"},
			{Name: "unison", Quick: 16000, Thorough: 200000, Fn: func(t *T) { history(t, voice.ModeUnison) },
				Rule: "the same histories where all voices play the last key; non-trivial: overlapping keys"},
		},
		Assumptions: []string{"a voice is active from its trigger until it is stopped or its release or natural end"},
	})
}

// fake is a voice that logs what it is told.
type fake struct {
	active, released bool
	note, vel        uint8
	amp              float64
	age              int64
	left             int // ticks until the sound ends
	relTicks, life   int
	perTick          int64 // how much older a tick makes it
	calls            []string
	ageBase          int64 // what the voice counts its age from
	fine             bool  // loudness differs only slightly between voices
}

func (v *fake) IsActive() bool        { return v.active }
func (v *fake) GetNote() uint8        { return v.note }
func (v *fake) GetVelocity() uint8    { return v.vel }
func (v *fake) GetAmplitude() float64 { return v.amp }
func (v *fake) GetAge() int64         { return v.age }
func (v *fake) TriggerNote(n, vel uint8) {
	v.calls = append(v.calls, fmt.Sprintf("trigger %d/%d", n, vel))
	v.active, v.released, v.note, v.vel, v.age, v.amp, v.left = true, false, n, vel, v.ageBase, float64(vel)/127, v.life
	if v.fine {
		v.amp = 0.5 + 1e-11*float64(vel)
	}
}
func (v *fake) ReleaseNote() {
	if !v.active {
		return // nothing sounds, nothing changes
	}
	v.calls = append(v.calls, "release")
	v.released = true
	v.left = v.relTicks
	if v.left == 0 {
		v.active = false
	}
}
func (v *fake) Stop() {
	if v.active {
		v.calls = append(v.calls, "stop")
	}
	v.active, v.released = false, false
}
func (v *fake) Process([]float32) {}
func (v *fake) tick() {
	if !v.active {
		return
	}
	v.age += v.perTick
	if !v.fine {
		v.amp *= 0.9
	}
	v.left--
	if v.left <= 0 {
		v.active = false
	}
}

func keySet(t *T) []uint8 {
	n := t.Int(2, 6, "notes")
	if t.Big() {
		n = t.Int(2, 128, "many notes")
	}
	if n <= 6 {
		return []uint8{0, 1, 60, 61, 72, 127}[:n]
	}
	var k []uint8
	for i := 0; i < n; i++ {
		k = append(k, uint8(i*128/n))
	}
	return k
}

func history(t *T, mode voice.AllocationMode) {
	n, most := t.Int(1, 6, "voices"), 40
	if t.Big() {
		n, most = t.Int(1, 128, "many voices"), 500
	}
	endless := 1 << 30
	vs := make([]*fake, n)
	iv := make([]voice.Voice, n)
	relTicks, life := Pick(t, "rel", 0, 1, 3, 10), Pick(t, "life", endless, endless, 5, 12)
	perTick := Pick(t, "block", int64(1), 64, 1<<31-1, 1<<40+1)
	ageBase, fine, uneven := Pick(t, "age base", int64(0), 0, 1<<33, 1<<50), t.Int(0, 3, "fine") == 0, t.Int(0, 2, "uneven") == 0
	if ageBase > 1<<40 && perTick > 1<<40 {
		perTick = 1
	}
	longest := relTicks
	for i := range vs {
		vs[i] = &fake{relTicks: relTicks, life: life, perTick: perTick, ageBase: ageBase, fine: fine}
		if uneven { // voices that do not end together
			vs[i].relTicks += t.Int(0, 4, "own release")
			vs[i].life += Pick(t, "own life", 0, 3, 9)
			longest = max(longest, vs[i].relTicks)
		}
		iv[i] = vs[i]
	}
	a := voice.NewAllocator(iv)
	if mode != voice.ModePoly || t.Bool("setmode") {
		a.SetMode(mode)
	}
	limit := n
	steal := voice.StealOldest
	owner := make([]int, n) // the key a voice was triggered for and not yet released, or -1
	for i := range owner {
		owner[i] = -1
	}
	keys := map[uint8]bool{} // held
	sus := map[uint8]bool{}  // released under the pedal
	pedal := false
	cur := -1 // mono, legato, unison: the current note, held or sustained
	notes := keySet(t)
	t.Desc("voices=%d rel=%d life=%d", n, relTicks, life)

	type snap struct {
		active bool
		age    int64
		amp    float64
		note   uint8
	}
	before := make([]snap, n)
	take := func() {
		for i, v := range vs {
			v.calls = nil
			before[i] = snap{v.active, v.age, v.amp, v.note}
		}
	}
	what := ""
	// quiet fails if a voice other than the exempt ones was told anything
	quiet := func(exempt ...int) {
	next:
		for i, v := range vs {
			for _, e := range exempt {
				if e == i {
					continue next
				}
			}
			if len(v.calls) > 0 {
				t.Fatalf("%s: voice %d (note %d, owner %d) gets %v; it must be left alone (keys %v, sustained %v, pedal %v)", what, i, before[i].note, owner[i], v.calls, keys, sus, pedal)
			}
		}
	}
	one := func(i int, want string) {
		c := vs[i].calls
		if len(c) > 0 && c[0] == "stop" {
			c = c[1:]
		}
		if len(c) != 1 || c[0] != want {
			t.Fatalf("%s: voice %d gets %v, expected %s", what, i, vs[i].calls, want)
		}
	}
	trigger := func(note, vel uint8) {
		want := fmt.Sprintf("trigger %d/%d", note, vel)
		switch mode {
		case voice.ModeMono:
			t.Nontrivial(cur >= 0)
			one(0, want)
			quiet(0)
			cur = int(note)
		case voice.ModeLegato:
			t.Nontrivial(cur >= 0)
			if cur >= 0 {
				quiet()
			} else {
				one(0, want)
				quiet(0)
			}
			cur = int(note)
		case voice.ModeUnison:
			t.Nontrivial(cur >= 0)
			var all []int
			for i := 0; i < limit; i++ {
				one(i, want)
				all = append(all, i)
			}
			quiet(all...)
			cur = int(note)
		case voice.ModePoly:
			own := -1
			for i, o := range owner {
				if o == int(note) {
					own = i
				}
			}
			var ok []int // voices that may play the note
			switch {
			case own >= 0 && before[own].active:
				ok = []int{own}
			default:
				if own >= 0 {
					t.Nontrivial(true)
					t.Class("ended by itself")
				}
				for i := 0; i < limit; i++ {
					if !before[i].active {
						ok = append(ok, i)
					}
				}
				if len(ok) == 0 && steal != voice.StealNone {
					t.Nontrivial(true)
					t.Class("steal")
					better := map[voice.StealingMode]func(x, y snap) bool{
						voice.StealOldest:   func(x, y snap) bool { return x.age > y.age },
						voice.StealQuietest: func(x, y snap) bool { return x.amp < y.amp },
						voice.StealHighest:  func(x, y snap) bool { return x.note > y.note },
						voice.StealLowest:   func(x, y snap) bool { return x.note < y.note },
					}[steal]
					for i := 0; i < limit; i++ {
						best := true
						for j := 0; j < limit; j++ {
							best = best && !better(before[j], before[i])
						}
						if best {
							ok = append(ok, i)
						}
					}
				}
			}
			got := -1
			for i, v := range vs {
				if len(v.calls) > 0 {
					got = i
					break
				}
			}
			if len(ok) == 0 {
				t.Class("full")
				quiet()
				return
			}
			k := sort.SearchInts(ok, got)
			if got < 0 || k == len(ok) || ok[k] != got {
				t.Fatalf("%s: voice %d is used (its calls: %v), expected one of %v (limit %d, stealing mode %d, voices before %+v)", what, got, func() []string {
					if got < 0 {
						return nil
					}
					return vs[got].calls
				}(), ok, limit, steal, before)
			}
			one(got, want)
			quiet(got)
			for i := range owner {
				if owner[i] == int(note) {
					owner[i] = -1
				}
			}
			owner[got] = int(note)
		}
	}
	// release says which voices must be released when these keys let go
	release := func(ns []uint8) {
		var rel []int
		switch mode {
		case voice.ModePoly:
			for _, note := range ns {
				for i, o := range owner {
					if o == int(note) {
						rel = append(rel, i)
						owner[i] = -1
					}
				}
			}
		default:
			hit := false
			for _, note := range ns {
				hit = hit || cur == int(note)
			}
			if hit {
				cur = -1
				m := 1
				if mode == voice.ModeUnison {
					m = limit
				}
				for i := 0; i < m; i++ {
					rel = append(rel, i)
				}
			}
		}
		for _, i := range rel {
			if before[i].active && fmt.Sprint(vs[i].calls) != "[release]" {
				t.Fatalf("%s: voice %d gets %v, it must be released once", what, i, vs[i].calls)
			}
		}
		quiet(rel...)
	}
	tick := func(k int) {
		for ; k > 0; k-- {
			for _, v := range vs {
				v.tick()
			}
		}
	}
	noteOff := func(note uint8, route int) {
		take()
		what = fmt.Sprintf("note off %d", note)
		ch := uint8(t.Int(0, 15, "ch"))
		switch route {
		case 0:
			a.NoteOff(note, 64)
		case 1:
			a.ProcessEvent(midi.NoteOffEvent{BaseEvent: midi.BaseEvent{EventChannel: ch}, NoteNumber: note})
		case 2:
			a.ProcessEvent(midi.NoteOnEvent{BaseEvent: midi.BaseEvent{EventChannel: ch}, NoteNumber: note, Velocity: 0})
		}
		delete(keys, note)
		if pedal {
			sus[note] = true
			quiet()
		} else {
			release([]uint8{note})
		}
		t.Desc(" -%d", note)
	}
	setPedal := func(on bool, route int) {
		take()
		what = fmt.Sprintf("pedal %v", on)
		if route == 0 {
			a.SetSustainPedal(on)
		} else {
			v := uint8(t.Int(0, 63, "cc"))
			if on {
				v += 64
			}
			a.ProcessEvent(midi.ControlChangeEvent{Controller: midi.CCSustain, Value: v})
		}
		pedal = on
		if on {
			quiet()
		} else {
			var ns []uint8
			for k := range sus {
				ns = append(ns, k)
			}
			sus = map[uint8]bool{}
			release(ns)
		}
		t.Desc(" ped%v", on)
	}
	for op := t.Int(1, most, "ops"); op > 0; op-- {
		note := notes[t.Int(0, len(notes)-1, "note")]
		k := t.Int(0, 19, "op")
		if t.Big() && (k >= 8 && k < 13 || k == 16) && t.Int(0, 7, "press instead") > 0 {
			k = 0 // many keys at once
		}
		switch {
		case k < 8:
			vel := uint8(t.Int(1, 127, "vel"))
			take()
			what = fmt.Sprintf("note on %d", note)
			if sus[note] {
				t.Nontrivial(true)
				t.Class("sustained key pressed again")
			}
			if t.Bool("event") {
				a.ProcessEvent(midi.NoteOnEvent{NoteNumber: note, Velocity: vel})
			} else {
				a.NoteOn(note, vel)
			}
			keys[note] = true
			delete(sus, note)
			t.Desc(" +%d", note)
			trigger(note, vel)
		case k < 13:
			noteOff(note, t.Int(0, 2, "route"))
		case k < 16:
			setPedal(t.Bool("on"), t.Int(0, 1, "route"))
		case k == 16:
			m := t.Int(-1, n+2, "limit")
			take()
			what = fmt.Sprintf("limit %d", m)
			a.SetMaxVoices(m)
			old := limit
			limit = min(max(m, 1), n)
			var drop []int
			for i := limit; i < old; i++ {
				drop = append(drop, i)
				owner[i] = -1
			}
			quiet(drop...)
			t.Desc(" max%d", m)
		case k == 17:
			steal = voice.StealingMode(t.Int(0, 4, "steal"))
			take()
			what = "stealing mode"
			a.SetStealingMode(steal)
			quiet()
			t.Desc(" steal%d", steal)
		case k == 18:
			if t.Int(0, 3, "other") == 0 && (!t.Big() || t.Int(0, 15, "rarely") == 0) {
				take()
				if t.Bool("reset") {
					a.Reset()
				} else {
					a.SetMode(mode)
				}
				for i, v := range vs {
					if v.active {
						t.Fatalf("voice %d still sounds after a reset", i)
					}
					owner[i] = -1
				}
				keys, sus, pedal, cur = map[uint8]bool{}, map[uint8]bool{}, false, -1
				t.Desc(" reset")
			} else {
				take()
				what = "an unrelated event"
				a.ProcessEvent(Pick[midi.Event](t, "ev", midi.ControlChangeEvent{Controller: midi.CCVolume, Value: 3}, midi.ControlChangeEvent{Controller: midi.CCModWheel, Value: 127}, midi.PitchBendEvent{Value: 100}, midi.ClockEvent{}, midi.ChannelPressureEvent{Pressure: 3}))
				quiet()
			}
		default:
			k := t.Int(1, 8, "ticks")
			tick(k)
			t.Desc(" t%d", k)
		}
		if t.Bool("advance") {
			tick(1)
		}
		act := 0
		for _, v := range vs {
			if v.active {
				act++
			}
		}
		if got := a.GetActiveVoiceCount(); got != act {
			t.Fatalf("after %s: %d voices sound, %d reported", what, act, got)
		}
		if act > limit {
			t.Fatalf("after %s: %d voices sound, the limit is %d", what, act, limit)
		}
	}
	// everything is let go
	var held []uint8
	for k := range keys {
		held = append(held, k)
	}
	sort.Slice(held, func(i, j int) bool { return held[i] < held[j] })
	for _, k := range held {
		noteOff(k, 0)
	}
	setPedal(false, 0)
	for i, v := range vs {
		if v.active && !v.released {
			t.Fatalf("all keys and the pedal are up, but voice %d still plays note %d (hanging note)", i, v.note)
		}
	}
	tick(longest)
	if c := a.GetActiveVoiceCount(); c != 0 {
		t.Fatalf("%d voices still sound after everything was released", c)
	}
}
