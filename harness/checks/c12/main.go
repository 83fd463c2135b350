// C12: musical time and note arithmetic.
package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C12",
		Subs: []Sub{
			{Name: "notes", Quick: 380000, Thorough: 1900000, Fn: notes,
				Rule: "all notes, tunings and frequencies (also within a cent of the border between two notes) against exact equal temperament; names against an independent table; non-trivial: a tuning other than 440"},
			{Name: "bend", Quick: 100000, Thorough: 500000, Fn: bend,
				Rule: "all event kinds and data bytes: type, channel, offset, normalized bend; non-trivial: always"},
			{Name: "transport", Quick: 230000, Thorough: 1150000, Fn: transport,
				Rule: "positions before and after the project start, on and next to bar lines, every meter and tempo, with every combination of validity flags, against exact arithmetic; non-trivial: negative or fractional position with a meter other than 4/4"},
		},
	})
}

func notes(t *T) {
	n := uint8(t.Int(0, 127, "note"))
	tune := Pick(t, "tuning", 0.0, 440, 432, 442, t.U(380, 480, "hz"))
	ref := tune
	if ref == 0 {
		ref = 440
	}
	t.Nontrivial(ref != 440)
	t.Desc("%d@%v", n, tune)
	want := ref * math.Exp2((float64(n)-69)/12)
	got := midi.NoteToFrequency(n, tune)
	if !Close(got, want, 0, 1e-9) {
		t.Fatalf("note %d at A=%v is %v Hz, expected %v", n, tune, got, want)
	}
	if r := midi.FrequencyToNote(got, tune); r != n {
		t.Fatalf("note %d at A=%v is %v Hz, and %v Hz is note %d", n, tune, got, got, r)
	}
	if n > 0 && midi.NoteToFrequency(n-1, tune) >= got {
		t.Fatalf("note %d is not above note %d", n, n-1)
	}
	// any frequency belongs to the nearest note
	cents := Pick(t, "cents", 0.0, 0.499, -0.499, 0.49999, t.U(-0.4999, 0.4999, "c"))
	f := ref * math.Exp2((float64(n)+cents-69)/12)
	if r := midi.FrequencyToNote(f, tune); r != n {
		t.Fatalf("%v Hz is %.4f semitones from note %d but reported as note %d", f, cents, n, r)
	}
	out := Pick(t, "out", 0.0, -1, 1e-300, -1e300, 1e6, 1e300, t.LogU(1e-6, 5, "low"), t.LogU(20000, 1e9, "high"))
	r := midi.FrequencyToNote(out, tune)
	exact := 0.0
	if out > 0 {
		exact = math.Min(127, math.Max(0, math.Round(69+12*math.Log2(out/ref))))
	}
	if float64(r) != exact {
		t.Fatalf("%v Hz is reported as note %d instead of %v", out, r, exact)
	}
	names := "C C#D D#E F F#G G#A A#B "
	name := names[2*(n%12) : 2*(n%12)+2]
	if name[1] == ' ' {
		name = name[:1]
	}
	if w := fmt.Sprintf("%s%d", name, int(n)/12-1); midi.NoteNumberToName(n) != w {
		t.Fatalf("note %d is named %q, expected %q", n, midi.NoteNumberToName(n), w)
	}
}

func bend(t *T) {
	ch, off := uint8(t.Int(0, 15, "ch")), int32(t.Int(-1000, 100000, "off"))
	b := midi.BaseEvent{EventChannel: ch, Offset: off}
	v := int16(Pick(t, "v", 0, -8192, 8191, t.Int(-8192, 8191, "vn")))
	d := uint8(t.Int(0, 127, "d"))
	t.Nontrivial(true)
	t.Desc("%d %d %d %d", ch, off, v, d)
	if got := (midi.PitchBendEvent{BaseEvent: b, Value: v}).NormalizedValue(); got != float64(v)/8192 {
		t.Fatalf("bend %d is %v, expected %v", v, got, float64(v)/8192)
	}
	types := map[midi.EventType]string{}
	for _, e := range []midi.Event{
		midi.NoteOnEvent{BaseEvent: b, NoteNumber: d}, midi.NoteOffEvent{BaseEvent: b, NoteNumber: d},
		midi.ControlChangeEvent{BaseEvent: b, Controller: d}, midi.PitchBendEvent{BaseEvent: b, Value: v},
		midi.PolyPressureEvent{BaseEvent: b, NoteNumber: d}, midi.ChannelPressureEvent{BaseEvent: b, Pressure: d},
		midi.ProgramChangeEvent{BaseEvent: b, Program: d}, midi.ClockEvent{BaseEvent: b}, midi.StartEvent{BaseEvent: b},
		midi.StopEvent{BaseEvent: b}, midi.ContinueEvent{BaseEvent: b},
	} {
		if e.Channel() != ch || e.SampleOffset() != off {
			t.Fatalf("%T of channel %d offset %d reports %d, %d", e, ch, off, e.Channel(), e.SampleOffset())
		}
		if o, dup := types[e.Type()]; dup {
			t.Fatalf("%T and %s share type %v", e, o, e.Type())
		}
		types[e.Type()] = fmt.Sprintf("%T", e)
	}
	want := map[midi.EventType]string{midi.EventTypeNoteOn: "midi.NoteOnEvent", midi.EventTypeNoteOff: "midi.NoteOffEvent", midi.EventTypeControlChange: "midi.ControlChangeEvent", midi.EventTypePitchBend: "midi.PitchBendEvent",
		midi.EventTypePolyPressure: "midi.PolyPressureEvent", midi.EventTypeChannelPressure: "midi.ChannelPressureEvent", midi.EventTypeProgramChange: "midi.ProgramChangeEvent", midi.EventTypeClock: "midi.ClockEvent",
		midi.EventTypeStart: "midi.StartEvent", midi.EventTypeStop: "midi.StopEvent", midi.EventTypeContinue: "midi.ContinueEvent"}
	for k, n := range want {
		if types[k] != n {
			t.Fatalf("type %v belongs to %q, expected %q", k, types[k], n)
		}
	}
}

func transport(t *T) {
	num, den := int32(Pick(t, "num", 4, 3, 6, 7, 1, 12, t.Int(1, 32, "numn"))), int32(Pick(t, "den", 4, 8, 2, 16, 1, 32))
	if t.Int(0, 9, "nosig") == 0 {
		num, den = int32(Pick(t, "num0", 0, -1, 4)), int32(Pick(t, "den0", 0, -4, 4))
	}
	bar := int64(t.Int(-8, 40, "bar"))
	if t.Int(0, 5, "far") == 0 {
		bar = int64(t.Int(-200000, 200000, "farbar"))
	}
	qpb := 4 / math.Max(1, float64(den)) // quarter notes per beat; dyadic, so exact
	n := math.Max(1, float64(num))
	beat := float64(t.Int(0, int(n)-1, "beat"))
	frac := Pick(t, "frac", 0.0, 0.5, 0.25, 1.0/1024, 1-1.0/1024, math.Floor(t.U(0, 1, "fr")*1048576)/1048576)
	if frac == 1 {
		frac = 0
	}
	if bar >= -40 && bar <= 40 {
		frac = Pick(t, "close", frac, frac, 1-1.0/(1<<36), 1.0/(1<<36))
	}
	pos := (float64(bar)*n + beat + frac) * qpb // exact in binary
	ti := &process.TransportInfo{
		Tempo: Pick(t, "tempo", 120.0, 60, 0, -3, t.U(20, 400, "bpm")), HasTempo: t.Int(0, 4, "ht") != 0,
		TimeSigNumerator: num, TimeSigDenominator: den, HasTimeSignature: t.Int(0, 4, "hs") != 0,
		ProjectTimeMusic: pos, HasMusicalTime: t.Int(0, 4, "hm") != 0,
		BarPositionMusic: float64(bar) * n * qpb, HasBarPosition: t.Int(0, 4, "hb") != 0,
	}
	if t.Bool("rest of the transport") { // nothing else the host reports matters
		ti.IsPlaying, ti.IsRecording, ti.IsCycling, ti.HasCycle = t.Bool("playing"), t.Bool("recording"), t.Bool("cycling"), t.Bool("cycle")
		ti.CycleStartMusic = pos + t.U(-40, 40, "cycle start")
		ti.CycleEndMusic = ti.CycleStartMusic + t.U(0, 40, "cycle length")
		ti.ProjectTimeSamples, ti.ContinuousTimeSamples = int64(t.U(-1e9, 1e9, "time")), int64(t.U(0, 1e12, "continuous time"))
		ti.SamplesToNextClock = int32(t.Int(-1000, 1000, "clock"))
	}
	t.Desc("%d/%d bar %d beat %v+%v bpm %v flags %v%v%v%v", num, den, bar, beat, frac, ti.Tempo, ti.HasTempo, ti.HasTimeSignature, ti.HasMusicalTime, ti.HasBarPosition)
	t.Nontrivial((pos < 0 || frac != 0) && (num != 4 || den != 4))
	valid := ti.HasMusicalTime && ti.HasTimeSignature && num > 0 && den > 0
	wb, wt := 0, 0.0
	if valid {
		wb, wt = int(bar), beat+frac
	}
	if b, bt := ti.GetBarsBeats(); b != wb || !Close(bt, wt, 1e-9, 0) {
		t.Fatalf("position %v in %d/%d (known: %v) is bar %d beat %v, expected bar %d beat %v", pos, num, den, valid, b, bt, wb, wt)
	}
	sr := t.Rate("sr")
	spb := 0.0
	if ti.HasTempo && ti.Tempo > 0 {
		spb = sr * 60 / ti.Tempo
	}
	if got := ti.GetSamplesPerBeat(sr); !Close(got, spb, 0, 1e-12) {
		t.Fatalf("%v bpm (known: %v) at %v Hz: %v samples per beat, expected %v", ti.Tempo, ti.HasTempo, sr, got, spb)
	}
	// position within the beat, relative to a bar start that need not be the one above
	if t.Bool("otherbar") {
		ti.BarPositionMusic -= float64(t.Int(-3, 3, "shift")) * n * qpb
	}
	bp := 0.0
	if ti.HasMusicalTime && ti.HasBarPosition {
		q := 1.0
		if ti.HasTimeSignature && den > 0 {
			q = 4 / float64(den)
		}
		x := (ti.ProjectTimeMusic - ti.BarPositionMusic) / q
		bp = x - math.Floor(x)
	}
	got := ti.GetBeatPosition()
	if !(got >= 0 && got < 1) || !Close(got, bp, 1e-9, 0) {
		t.Fatalf("beat position %v, expected %v", got, bp)
	}
	th := Pick(t, "th", 0.0001, 0.01, 0.1, 0.3)
	if d := math.Min(bp, 1-bp); !(math.Abs(d-th) <= 1e-9) && ti.IsOnBeat(th) != (d < th) {
		t.Fatalf("beat position %v: IsOnBeat(%v) is %v", bp, th, ti.IsOnBeat(th))
	}
	// tiny negative positions still lie inside a beat
	ti.HasMusicalTime, ti.HasBarPosition = true, true
	ti.ProjectTimeMusic, ti.BarPositionMusic = -t.LogU(1e-20, 1e-3, "tiny"), 0
	if p := ti.GetBeatPosition(); !(p >= 0 && p < 1) {
		t.Fatalf("position %v gives beat position %v, outside [0,1)", ti.ProjectTimeMusic, p)
	}
}
