// C07: the event queue delivers every event exactly once, in time order.
package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/midi"
	"pgregory.net/rapid"
	"vst3verif/conc"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C07",
		Subs: []Sub{
			{Name: "model", Quick: 6000, Thorough: 200000, Steps: 30, Fn: model,
				Rule: "operation sequences over all event kinds, with many equal and negative offsets, against a stable-sorted list; non-trivial: equal offsets present when read"},
			{Name: "blocks", Quick: 6000, Thorough: 200000, Fn: blocks,
				Rule: "a block's events read through consecutive sub-ranges of any division, with and without removal of what was processed and re-basing to the next block; every event arrives exactly once in order; non-trivial: at least 3 sub-ranges and 3 events"},
			{Name: "buffer", Quick: 3000, Thorough: 100000, Fn: buffer,
				Rule: "input and output sides of an event buffer used in any order stay independent; non-trivial: both used"},
			{Name: "concurrent", Quick: 250, Thorough: 10000, Fn: concurrent,
				Rule: "2-4 goroutines add while others read, remove and inspect, under the race detector; every read is sorted and holds everything added before it began; non-trivial: a read overlapped an add"},
			{Name: "upkeep", Quick: 700, Thorough: 10000, Fn: upkeep,
				Rule: "2-4 goroutines add while another removes what is past, moves everything later, or clears, and a third reads, under the race detector; what is left at the end is exactly what was added and not past, moved by whole steps, or the newest of each goroutine; non-trivial: an add overlapped the upkeep"},
		},
		Assumptions: []string{"event offsets stay within 32 bits after re-basing"},
	})
}

func genEvent(t *T, off int32, tag uint8) midi.Event {
	b := midi.BaseEvent{EventChannel: tag % 16, Offset: off}
	switch t.Int(0, 10, "type") {
	case 0:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: tag, Velocity: tag / 2}
	case 1:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: tag, Velocity: 3}
	case 2:
		return midi.ControlChangeEvent{BaseEvent: b, Controller: tag, Value: 9}
	case 3:
		return midi.PitchBendEvent{BaseEvent: b, Value: int16(tag) * 31}
	case 4:
		return midi.PolyPressureEvent{BaseEvent: b, NoteNumber: tag, Pressure: 7}
	case 5:
		return midi.ChannelPressureEvent{BaseEvent: b, Pressure: tag}
	case 6:
		return midi.ProgramChangeEvent{BaseEvent: b, Program: tag}
	case 7:
		return midi.ClockEvent{BaseEvent: b}
	case 8:
		return midi.StartEvent{BaseEvent: b}
	case 9:
		return midi.StopEvent{BaseEvent: b}
	}
	return midi.ContinueEvent{BaseEvent: b}
}

func shift(e midi.Event, d int32) midi.Event {
	switch x := e.(type) {
	case midi.NoteOnEvent:
		x.Offset += d
		return x
	case midi.NoteOffEvent:
		x.Offset += d
		return x
	case midi.ControlChangeEvent:
		x.Offset += d
		return x
	case midi.PitchBendEvent:
		x.Offset += d
		return x
	case midi.PolyPressureEvent:
		x.Offset += d
		return x
	case midi.ChannelPressureEvent:
		x.Offset += d
		return x
	case midi.ProgramChangeEvent:
		x.Offset += d
		return x
	case midi.ClockEvent:
		x.Offset += d
		return x
	case midi.StartEvent:
		x.Offset += d
		return x
	case midi.StopEvent:
		x.Offset += d
		return x
	case midi.ContinueEvent:
		x.Offset += d
		return x
	}
	panic("unknown event")
}

func genOff(t *T) int32 {
	switch t.Int(0, 9, "off.kind") {
	case 0:
		return int32(t.Int(-50, -1, "off"))
	case 1:
		return Pick(t, "off", int32(1<<31-1), -1<<31, 1<<30)
	}
	return int32(t.Size(0, 64, 1<<30, "off"))
}

func sorted(x []midi.Event) []midi.Event {
	y := Clone(x)
	sort.SliceStable(y, func(i, j int) bool { return y[i].SampleOffset() < y[j].SampleOffset() })
	return y
}

func eq(a, b []midi.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func show(x []midi.Event) string {
	var s []string
	for _, e := range x {
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func inRange(m []midi.Event, a, b int32) (r []midi.Event) {
	for _, e := range sorted(m) {
		if e.SampleOffset() >= a && e.SampleOffset() < b {
			r = append(r, e)
		}
	}
	return
}

type collector struct {
	got []midi.Event
	fn  func()
}

func (c *collector) ProcessEvent(e midi.Event) {
	c.got = append(c.got, e)
	if c.fn != nil && len(c.got) <= 5 {
		c.fn()
	}
}

func model(t *T) {
	q := midi.NewEventQueue()
	var m []midi.Event
	tag := uint8(0)
	ties := func() {
		s := sorted(m)
		for i := 1; i < len(s); i++ {
			if s[i].SampleOffset() == s[i-1].SampleOffset() {
				t.Nontrivial(true)
			}
		}
	}
	ev := func() midi.Event {
		if len(m) > 0 && t.Int(0, 9, "again") == 0 { // exactly one there already is
			return m[t.Int(max(0, len(m)-3), len(m)-1, "which")]
		}
		tag = (tag + 1) % 128
		return genEvent(t, genOff(t), tag)
	}
	t.Repeat(map[string]func(*rapid.T){
		"add": func(*rapid.T) { e := ev(); q.Add(e); m = append(m, e); t.Desc(" +%d", e.SampleOffset()) },
		"addMany": func(*rapid.T) {
			var es []midi.Event
			for i := t.Size(0, 30, 2000, "n"); i > 0; i-- {
				es = append(es, ev())
			}
			q.AddMultiple(es)
			m = append(m, es...)
			for i := range es {
				es[i] = nil // the caller's slice stays the caller's
			}
			t.Desc(" +*%d", len(es))
		},
		"range": func(*rapid.T) {
			a, b := genOff(t), genOff(t)
			got := q.GetEventsInRange(a, b)
			if want := inRange(m, a, b); !eq(got, want) {
				t.Fatalf("events in [%d,%d): %s, expected %s", a, b, show(got), show(want))
			}
			for i := range got {
				got[i] = nil
			}
			m = sorted(m)
			ties()
			t.Desc(" ?%d,%d", a, b)
		},
		"process": func(*rapid.T) {
			a, b := genOff(t), genOff(t)
			var c collector
			var added []midi.Event
			echo := t.Int(0, 3, "echo") == 0
			if echo { // a processor that queues an event for later and looks ahead
				c.fn = func() {
					if e := ev(); e.SampleOffset() < a || e.SampleOffset() >= b {
						q.Add(e)
						added = append(added, e)
					}
					if q.Size() != len(m)+len(added) {
						t.Fatalf("%d events queued, %d were added", q.Size(), len(m)+len(added))
					}
				}
			}
			q.ProcessEvents(&c, a, b)
			if want := inRange(m, a, b); !eq(c.got, want) {
				t.Fatalf("processed in [%d,%d): %s, expected %s", a, b, show(c.got), show(want))
			}
			m = append(sorted(m), added...)
		},
		"all": func(*rapid.T) {
			got := q.GetAllEvents()
			if want := sorted(m); !eq(got, want) {
				t.Fatalf("all events: %s, expected %s", show(got), show(want))
			}
			for i := range got {
				got[i] = nil
			}
			m = sorted(m)
			ties()
		},
		"remove": func(*rapid.T) {
			k := genOff(t)
			q.RemoveProcessedEvents(k)
			var keep []midi.Event
			for _, e := range sorted(m) {
				if e.SampleOffset() > k {
					keep = append(keep, e)
				}
			}
			m = keep
			t.Desc(" -%d", k)
		},
		"offset": func(*rapid.T) {
			d := int32(t.Int(-70, 70, "d"))
			for _, e := range m {
				if v := int64(e.SampleOffset()) + int64(d); v > 1<<31-1 || v < -1<<31 {
					t.Skip("would overflow")
				}
			}
			q.OffsetEvents(d)
			for i := range m {
				m[i] = shift(m[i], d)
			}
			t.Desc(" ~%d", d)
		},
		"clear": func(*rapid.T) {
			if t.Int(0, 4, "really") > 0 {
				t.Skip("not now")
			}
			q.Clear()
			m = nil
			t.Desc(" c")
		},
		"": func(*rapid.T) {
			if q.Size() != len(m) || q.IsEmpty() != (len(m) == 0) {
				t.Fatalf("size %d (empty %v), expected %d", q.Size(), q.IsEmpty(), len(m))
			}
		},
	})
}

func blocks(t *T) {
	q := midi.NewEventQueue()
	var want, got []midi.Event // want: events in absolute time
	nblocks := t.Size(1, 4, 60, "blocks")
	size := int32(t.Size(1, 64, 16384, "size"))
	remove := t.Bool("remove")
	tag := uint8(0)
	parts := 0
	base := int32(0)
	for b := 0; b < nblocks; b++ {
		for i := t.Size(0, 12, 500, "events"); i > 0; i-- {
			tag = (tag + 1) % 128
			lim := int(size) - 1
			if remove && b < nblocks-1 && t.Bool("later") {
				lim = int(size)*2 - 1 // scheduled for the next block
			}
			e := genEvent(t, int32(t.Int(0, lim, "off")), tag)
			for k := Pick(t, "times", 1, 1, 1, 1, 1, 1, 1, 2, 3); k > 0; k-- { // a repeated event is two events
				q.Add(e)
				want = append(want, shift(e, base))
			}
		}
		pos := int32(0)
		for _, k := range t.Partition(int(size), "cut") {
			parts++
			for _, e := range q.GetEventsInRange(pos, pos+int32(k)) {
				got = append(got, shift(e, base))
			}
			pos += int32(k)
		}
		if remove {
			q.RemoveProcessedEvents(size - 1)
			q.OffsetEvents(-size)
		} else {
			q.Clear()
		}
		base += size
	}
	if w := sorted(want); !eq(got, w) {
		t.Fatalf("read block by block: %s, expected %s", show(got), show(w))
	}
	t.Desc("size=%d blocks=%d parts=%d remove=%v %s", size, nblocks, parts, remove, show(want))
	t.Nontrivial(parts >= 3 && len(want) >= 3)
}

func buffer(t *T) {
	b := midi.NewEventBuffer()
	var in, out []midi.Event
	ui, uo := false, false
	for i := t.Int(2, 25, "n"); i > 0; i-- {
		switch t.Int(0, 8, "op") {
		case 0, 1, 2:
			e := genEvent(t, genOff(t), uint8(i))
			if len(in) > 0 && t.Int(0, 5, "again") == 0 {
				e = in[len(in)-1]
			}
			b.AddInputEvent(e)
			in = append(in, e)
			ui = true
		case 3, 4, 5:
			e := genEvent(t, genOff(t), uint8(i))
			if len(out) > 0 && t.Int(0, 5, "again") == 0 {
				e = out[len(out)-1]
			}
			b.AddOutputEvent(e)
			out = append(out, e)
			uo = true
		case 6:
			b.ClearInput()
			in = nil
		case 7:
			b.ClearOutput()
			out = nil
		case 8:
			if t.Int(0, 3, "all") == 0 {
				b.ClearAll()
				in, out = nil, nil
			}
		}
		lo, hi := genOff(t), genOff(t)
		if got, want := b.GetInputEvents(lo, hi), inRange(in, lo, hi); !eq(got, want) {
			t.Fatalf("input events in [%d,%d): %s, expected %s", lo, hi, show(got), show(want))
		}
		if got, want := b.GetOutputEvents(), sorted(out); !eq(got, want) {
			t.Fatalf("output events %s, expected %s", show(got), show(want))
		}
		in, out = sorted(in), sorted(out)
	}
	t.Desc("%d in, %d out: %s %s", len(in), len(out), show(in), show(out))
	t.Nontrivial(ui && uo)
}

func concurrent(t *T) {
	q := midi.NewEventQueue()
	writers := t.Int(2, 4, "writers")
	per := t.Int(5, 80, "per")
	spread := t.Int(1, 50, "spread")
	batch := t.Bool("batch")
	seed := uint32(t.Int(1, 1<<30, "seed"))
	var done [4]atomic.Int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	problem := ""
	overlapped := false
	fail := func(f string, a ...any) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	start := make(chan struct{})
	var live atomic.Int64
	live.Store(int64(writers))
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer live.Add(-1)
			r := seed + uint32(w)*977
			<-start
			for i := 0; i < per; i++ {
				r = r*1664525 + 1013904223
				e := midi.PitchBendEvent{BaseEvent: midi.BaseEvent{EventChannel: uint8(w), Offset: int32(r>>8) % int32(spread)}, Value: int16(i)}
				if batch && i%3 == 0 {
					q.AddMultiple([]midi.Event{e})
				} else {
					q.Add(e)
				}
				done[w].Store(int64(i + 1))
				if r>>28 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 4000; n++ {
				last := live.Load() == 0
				var before [4]int64
				for w := range before {
					before[w] = done[w].Load()
				}
				var got []midi.Event
				if (n+k)%2 == 0 {
					got = q.GetAllEvents()
				} else {
					got = q.GetEventsInRange(0, int32(spread))
				}
				var seen [4]int64
				lastOf := map[[2]int32]int16{}
				for i, e := range got {
					p := e.(midi.PitchBendEvent)
					if i > 0 && got[i-1].SampleOffset() > p.Offset {
						fail("a concurrent read is not in time order: offset %d before %d", got[i-1].SampleOffset(), p.Offset)
					}
					seen[p.EventChannel]++
					key := [2]int32{int32(p.EventChannel), p.Offset}
					if v, ok := lastOf[key]; ok && v >= p.Value {
						fail("events at the same offset come in another order than they were added: %d before %d", v, p.Value)
					}
					lastOf[key] = p.Value
				}
				for w := range seen {
					if seen[w] < before[w] {
						fail("goroutine %d had added %d events before the read began; the read holds %d of them", w, before[w], seen[w])
					}
					if before[w] > 0 && before[w] < int64(per) {
						mu.Lock()
						overlapped = true
						mu.Unlock()
					}
				}
				if q.Size() < len(got) || q.IsEmpty() && len(got) > 0 {
					fail("the queue reports fewer events than were just read")
				}
				if last {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if problem != "" {
		t.Fatalf("%s", problem)
	}
	if q.Size() != writers*per {
		t.Fatalf("%d goroutines added %d events each; the queue holds %d", writers, per, q.Size())
	}
	t.Desc("writers=%d per=%d spread=%d batch=%v seed=%d", writers, per, spread, batch, seed)
	t.Nontrivial(overlapped)
}

// upkeep has goroutines add events while another removes, moves or clears.
func upkeep(t *T) {
	q := midi.NewEventQueue()
	writers := t.Int(2, 4, "writers")
	per := t.Int(5, 80, "per")
	rounds := t.Int(1, 40, "rounds")
	kind := t.Int(0, 2, "kind")
	every := t.Int(0, 6, "yield")
	const step = 1000
	t.Desc("writers=%d per=%d rounds=%d kind=%d", writers, per, rounds, kind)
	var begun, live atomic.Int64
	var overlapped atomic.Bool
	live.Store(int64(writers))
	var fns []func() string
	for w := 0; w < writers; w++ {
		fns = append(fns, func() string {
			defer live.Add(-1)
			for i := 0; i < per; i++ {
				e := midi.PitchBendEvent{BaseEvent: midi.BaseEvent{EventChannel: uint8(w), Offset: int32(i % 3)}, Value: int16(i)}
				if kind == 0 && i%4 == 1 { // past at once
					e.Offset = -1
				}
				if i%5 == 0 {
					q.AddMultiple([]midi.Event{e})
				} else {
					q.Add(e)
				}
				begun.Add(1)
				conc.Pause(every, i)
			}
			return ""
		})
	}
	fns = append(fns, func() string {
		for i := 0; i < rounds; i++ {
			switch kind {
			case 0:
				q.RemoveProcessedEvents(-1)
			case 1:
				q.OffsetEvents(step)
			case 2:
				q.Clear()
			}
			if n := begun.Load(); n > 0 && n < int64(writers*per) {
				overlapped.Store(true)
			}
			conc.Pause(every, i)
		}
		return ""
	}, func() string {
		for live.Load() > 0 {
			got := q.GetAllEvents()
			for i := range got {
				if i > 0 && got[i-1].SampleOffset() > got[i].SampleOffset() {
					return "a concurrent read is not in time order"
				}
			}
			_, _ = q.Size(), q.IsEmpty()
			runtime.Gosched()
		}
		return ""
	})
	if m := conc.Together(fns...); m != "" {
		t.Fatalf("%s", m)
	}
	if kind == 0 {
		q.RemoveProcessedEvents(-1)
	}
	left := make([][]int32, writers) // the offset of each event that is left, -2 without
	for w := range left {
		left[w] = make([]int32, per)
		for i := range left[w] {
			left[w][i] = -2
		}
	}
	for _, e := range q.GetAllEvents() {
		p := e.(midi.PitchBendEvent)
		if left[p.EventChannel][p.Value] != -2 {
			t.Fatalf("event %d of goroutine %d is in the queue twice", p.Value, p.EventChannel)
		}
		left[p.EventChannel][p.Value] = p.Offset
	}
	for w := range left {
		moved, there := int32(rounds), false
		for i, off := range left[w] {
			switch kind {
			case 0:
				if past := i%4 == 1; past != (off == -2) || !past && off != int32(i%3) {
					t.Fatalf("event %d of goroutine %d at offset %d was left at %d (-2: removed) when everything before 0 was removed", i, w, i%3, off)
				}
			case 1:
				k := (off - int32(i%3)) / step
				if off == -2 || off != int32(i%3)+k*step || k < 0 || k > moved {
					t.Fatalf("event %d of goroutine %d is at %d (-2: lost) after %d moves by %d, the event before was moved %d times", i, w, off, rounds, step, moved)
				}
				moved = k
			case 2:
				if there && off == -2 || off != -2 && off != int32(i%3) {
					t.Fatalf("event %d of goroutine %d is at %d (-2: lost) after clears, an earlier one is there: %v", i, w, off, there)
				}
				there = off != -2
			}
		}
	}
	t.Nontrivial(overlapped.Load())
}
