// C08: the per-block context hands the processor exactly the block's data.
package main

import (
	"fmt"
	"sort"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C08",
		Subs: []Sub{
			{Name: "changes", Quick: 9200, Thorough: 200000, Fn: changes,
				Rule: "histories of added, sorted, applied and cleared parameter changes (up to 400 per block, few distinct offsets) against a stable-sorted list; non-trivial: equal offsets sorted"},
			{Name: "buffers", Quick: 36000, Thorough: 300000, Fn: buffers,
				Rule: "0-5 input and output channels of 0-40 samples, separate or in place, through every copying, clearing and visiting helper against a reference; non-trivial: channel counts differ or in place"},
			{Name: "events", Quick: 42000, Thorough: 210000, Fn: events,
				Rule: "note, controller and bend events added to either side and read whole, by range and through a visitor, against two sorted lists; non-trivial: both sides used"},
			{Name: "multibus", Quick: 48000, Thorough: 240000, Fn: multibus,
				Rule: "0-4 input and output buses (main or auxiliary, active or not) looked up, visited, cleared and passed through against a reference; non-trivial: an auxiliary or inactive bus present"},
		},
	})
}

func changes(t *T) {
	reg := param.NewRegistry()
	model := map[uint32]float64{}
	for i := t.Int(0, 4, "params"); i > 0; i-- {
		id := uint32(t.Int(0, 9, "id"))
		if _, ok := model[id]; ok {
			continue
		}
		if err := reg.Add(param.New(id, "p").Range(-1, 3).Build()); err != nil {
			t.Fatalf("Add: %v", err)
		}
		model[id] = reg.Get(id).GetValue()
	}
	ctx := process.NewContext(64, reg)
	var want []process.ParameterChange
	clamp := func(v float64) float64 {
		if v < 0 {
			return 0
		}
		if v > 1 {
			return 1
		}
		return v
	}
	for op := t.Size(1, 12, 100, "ops"); op > 0; op-- {
		switch t.Int(0, 5, "op") {
		case 0:
			ctx.ResetParameterChanges()
			want = want[:0]
			t.Desc(" reset")
		case 1:
			ctx.SortParameterChanges()
			w := Clone(want)
			sort.SliceStable(w, func(i, j int) bool { return w[i].SampleOffset < w[j].SampleOffset })
			seen := map[int]bool{}
			for _, c := range w {
				t.Nontrivial(seen[c.SampleOffset])
				seen[c.SampleOffset] = true
			}
			want = w
			t.Desc(" sort")
		case 2:
			id, v := uint32(t.Int(0, 9, "id")), t.U(-0.5, 1.5, "v")
			switch t.Int(0, 1, "route") {
			case 0:
				ctx.ApplyParameterChange(process.ParameterChange{ParamID: id, Value: v, SampleOffset: t.Int(-100, 5000, "off")})
			case 1:
				ctx.SetParameterAtOffset(id, v, t.Int(-3, 70, "off"))
			}
			if _, ok := model[id]; ok {
				model[id] = clamp(v)
			}
			t.Desc(" apply(%d,%.3g)", id, v)
		default:
			n, most := Pick(t, "n", 1, 2, 5, 20, 130, 300), 400
			if t.Big() {
				n, most = t.Size(n, n, 3000, "many"), 3000
			}
			m := t.Int(1, 20, "offsets")
			step, from := Pick(t, "step", 1, 1, 1000, 1<<20), Pick(t, "from", 0, 0, -3)
			for i := 0; i < n; i++ {
				c := process.ParameterChange{ParamID: uint32(t.Int(0, 9, "id")), Value: float64(len(want)) / 1000, SampleOffset: (from + t.Int(0, m, "off")) * step}
				if len(want) > most {
					break
				}
				switch l := len(want); {
				case l == 0:
				case t.Int(0, 7, "again") == 0: // the same once more, somewhere else
					c.ParamID, c.Value = want[l-1].ParamID, want[l-1].Value
				case t.Int(0, 15, "twice") == 0:
					c = want[t.Int(0, l-1, "which")]
				}
				ctx.AddParameterChange(c.ParamID, c.Value, c.SampleOffset)
				want = append(want, c)
			}
			t.Desc(" add*%d", n)
		}
		got := ctx.GetParameterChanges()
		if len(got) != len(want) || ctx.HasParameterChanges() != (len(want) > 0) {
			t.Fatalf("%d changes reported (%v), %d are pending", len(got), ctx.HasParameterChanges(), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				t.Fatalf("change %d of %d is %+v, expected %+v", i, len(want), got[i], want[i])
			}
		}
		for id := uint32(0); id < 11; id++ {
			v, ok := model[id]
			plain := 0.0
			if ok {
				plain = reg.Get(id).GetPlainValue()
			}
			if ctx.Param(id) != v || ctx.ParamPlain(id) != plain || ok && !Close(plain, -1+4*v, 1e-12, 0) {
				t.Fatalf("parameter %d reads %v (plain %v), expected %v", id, ctx.Param(id), ctx.ParamPlain(id), v)
			}
		}
	}
}

func genChans(t *T, n int, label string) [][]float32 {
	k := t.Size(0, 5, 40, label)
	x := make([][]float32, k)
	for c := range x {
		x[c] = make([]float32, n)
		for i := range x[c] {
			x[c][i] = float32(t.Int(-99, 99, "s")) + float32(c)*1000
		}
	}
	return x
}

func clone2(x [][]float32) [][]float32 {
	y := make([][]float32, len(x))
	for i := range x {
		y[i] = Clone(x[i])
	}
	return y
}

func diff2(got, want [][]float32) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d channels instead of %d", len(got), len(want))
	}
	for c := range got {
		if i, ok := SameBits(got[c], want[c]); !ok {
			if i < 0 {
				return fmt.Sprintf("channel %d has another length", c)
			}
			return fmt.Sprintf("channel %d sample %d is %v instead of %v", c, i, got[c][i], want[c][i])
		}
	}
	return ""
}

func buffers(t *T) {
	most := t.Size(40, 40, 3000, "most")
	ctx := process.NewContext(most+t.Int(0, 20, "max"), param.NewRegistry())
	if t.Bool("one") { // a context as small as the only block it gets
		n := t.Int(0, 40, "n")
		over := n > 0 && t.Int(0, 3, "over") == 0 // or smaller, then without its work buffers
		if over {
			ctx = process.NewContext(t.Int(0, n-1, "max"), param.NewRegistry())
		} else {
			ctx = process.NewContext(t.Int(n, n+20, "max"), param.NewRegistry())
		}
		block(t, ctx, n, over)
		return
	}
	for k := t.Int(1, 4, "blocks"); k > 0; k-- {
		if t.Int(0, 7, "unconnected") == 0 { // input channels without samples
			n := t.Int(0, most, "n")
			ctx.Input, ctx.Output = make([][]float32, t.Int(0, 3, "ins")), genChans(t, n, "out")
			if len(ctx.Output) == 0 {
				n = 0
			}
			var w, tmp []float32
			if p := Catch(func() { w, tmp = ctx.WorkBuffer(), ctx.TempBuffer() }); p != "" || ctx.NumSamples() != n || len(w) != n || len(tmp) != n {
				t.Fatalf("%d empty inputs and %d outputs of %d samples: NumSamples is %d, the work buffers have %d and %d (%s)", len(ctx.Input), len(ctx.Output), n, ctx.NumSamples(), len(w), len(tmp), p)
			}
			ctx.Clear()
			for _, c := range ctx.Output {
				for i, v := range c {
					if v != 0 {
						t.Fatalf("sample %d is %v after clearing", i, v)
					}
				}
			}
			continue
		}
		block(t, ctx, t.Int(0, most, "n"), false)
		t.Desc("; ")
	}
}

// block runs one operation on a block of n samples.
func block(t *T, ctx *process.Context, n int, over bool) {
	in, out := genChans(t, n, "in"), genChans(t, n, "out")
	for c := range in { // distinguishable from the outputs
		for i := range in[c] {
			in[c][i] += 100000
		}
	}
	inPlace := t.Int(0, 3, "inplace") == 0
	shared := make([]bool, min(len(in), len(out)))
	some := inPlace && t.Int(0, 2, "some") == 0 // only some of the channels
	for c := range shared {
		if shared[c] = inPlace && !(some && t.Bool("own")); shared[c] {
			out[c] = in[c]
		}
	}
	t.Nontrivial(inPlace || len(in) != len(out))
	t.Desc("in=%d out=%d n=%d inplace=%v", len(in), len(out), n, inPlace)
	ctx.Input, ctx.Output = in, out
	m := min(len(in), len(out))
	if ctx.NumInputChannels() != len(in) || ctx.NumOutputChannels() != len(out) || ctx.GetNumChannels() != m || ctx.GetNumStereoChannels() != min(m, 2) {
		t.Fatalf("channel counts %d %d %d %d", ctx.NumInputChannels(), ctx.NumOutputChannels(), ctx.GetNumChannels(), ctx.GetNumStereoChannels())
	}
	ns := n
	if len(in) == 0 && len(out) == 0 {
		ns = 0
	}
	if ctx.NumSamples() != ns {
		t.Fatalf("NumSamples %d, blocks have %d", ctx.NumSamples(), ns)
	}
	var w, tmp []float32
	if !over {
		w, tmp = ctx.WorkBuffer(), ctx.TempBuffer()
	}
	if !over && (len(w) != ns || len(tmp) != ns) {
		t.Fatalf("work buffers hold %d and %d samples, the block %d", len(w), len(tmp), ns)
	}
	for i := range w {
		w[i], tmp[i] = float32(i+1), float32(-i-1)
	}
	wantIn, want := clone2(in), clone2(out)
	var visits, wantVisits []int
	fn := func(x float32, c int) float32 { return 2*x + float32(c) + 0.5 }
	visit := func(ch int, input, output []float32) {
		visits = append(visits, ch)
		for i := range input {
			output[i] = fn(input[i], ch)
		}
	}
	apply := func(k int) {
		for c := 0; c < k; c++ {
			wantVisits = append(wantVisits, c)
			for i := range want[c] {
				want[c][i] = fn(wantIn[c][i], c)
			}
		}
	}
	op := t.Int(0, 7, "op")
	switch op {
	case 0:
		ctx.PassThrough()
	case 1:
		ctx.CopyInputToOutput()
	case 2:
		if !inPlace && len(out) > 0 && t.Int(0, 3, "longer") == 0 { // an output with more room than the block
			c, more := t.Int(0, len(out)-1, "c"), t.Int(1, 50, "more")
			for ; more > 0; more-- {
				out[c], want[c] = append(out[c], 7), append(want[c], 7)
			}
		}
		ctx.Clear()
		for c := range want {
			for i := range want[c] {
				want[c][i] = 0
			}
		}
	case 3:
		ctx.ProcessChannels(visit)
		apply(m)
	case 4:
		ctx.ProcessStereo(visit)
		apply(min(m, 2))
	case 5:
		ctx.ProcessMono(func(a, b []float32) { visit(0, a, b) })
		apply(min(m, 1))
	case 6:
		var fns []func(a, b []float32)
		k := t.Int(0, 6, "fns")
		for c := 0; c < k; c++ {
			fns = append(fns, func(a, b []float32) { visit(c, a, b) })
		}
		ctx.ProcessChannelsSeparately(fns...)
		apply(min(m, k))
	case 7:
		next, nestAt := 0, -1
		quiet := -1 // a channel that is never written to stays silent
		if m > 0 && t.Int(0, 2, "quiet") == 0 {
			quiet = t.Int(0, m-1, "channel")
		}
		if !inPlace && ns > 0 && t.Int(0, 3, "nest") == 0 { // from within, all samples once more
			nestAt = t.Int(0, ns-1, "at")
		}
		ctx.ProcessSamples(func(s int, a, b []float32) {
			if s != next || len(a) != m || len(b) != m {
				t.Fatalf("call %d gets sample %d with %d inputs and %d outputs, expected %d", next, s, len(a), len(b), m)
			}
			next++
			for c := range a {
				if a[c] != wantIn[c][s] {
					t.Fatalf("sample %d channel %d arrives as %v, the input has %v", s, c, a[c], wantIn[c][s])
				}
			}
			if s == nestAt {
				inner := 0
				ctx.ProcessSamples(func(s int, a, b []float32) {
					if s != inner || len(a) != m || len(b) != m {
						t.Fatalf("nested call %d gets sample %d with %d inputs and %d outputs, expected %d", inner, s, len(a), len(b), m)
					}
					inner++
					for c := range a {
						b[c] = a[c] * 3
					}
				})
				if inner != ns {
					t.Fatalf("%d nested calls for %d samples", inner, ns)
				}
			}
			for c := range b { // mixes channels: every input must have been gathered first
				if c != quiet {
					b[c] = a[m-1-c] + a[c]*0.5
				}
			}
		})
		if next != ns {
			t.Fatalf("%d calls for %d samples", next, ns)
		}
		for c := 0; c < m; c++ {
			for i := range want[c] {
				want[c][i] = wantIn[m-1-c][i] + wantIn[c][i]*0.5
				if c == quiet {
					want[c][i] = 0
				}
				if i < nestAt {
					want[c][i] = wantIn[c][i] * 3
				}
			}
		}
	}
	if op <= 1 {
		for c := 0; c < m; c++ {
			copy(want[c], wantIn[c])
		}
	}
	t.Desc(" op=%d", op)
	if fmt.Sprint(visits) != fmt.Sprint(wantVisits) {
		t.Fatalf("operation %d visits channels %v, expected %v", op, visits, wantVisits)
	}
	if d := diff2(ctx.Output, want); d != "" {
		t.Fatalf("operation %d with %d inputs and %d outputs (in place %v): output %s", op, len(in), len(out), inPlace, d)
	}
	if inPlace {
		for c := range shared {
			if shared[c] {
				wantIn[c] = want[c]
			}
		}
	}
	for c := range out {
		out[c] = out[c][:n]
	}
	if d := diff2(ctx.Input, wantIn); d != "" {
		t.Fatalf("operation %d changes the input: %s", op, d)
	}
	for i := range w {
		if ctx.WorkBuffer()[i] != float32(i+1) || ctx.TempBuffer()[i] != float32(-i-1) {
			t.Fatalf("the work buffers overlap each other or the block")
		}
	}
}

type sink struct {
	got []midi.Event
	fn  func(midi.Event)
}

func (s *sink) ProcessEvent(e midi.Event) {
	s.got = append(s.got, e)
	if s.fn != nil {
		s.fn(e)
	}
}

func events(t *T) {
	n := t.Size(1, 64, 1<<20, "n")
	ctx := process.NewContext(64, param.NewRegistry())
	sides := t.Int(1, 4, "sides")
	if sides != 1 { // an instrument has no inputs, an analyzer no outputs
		ctx.Output = [][]float32{make([]float32, n)}
	}
	if sides != 2 {
		ctx.Input = [][]float32{make([]float32, n)}
	}
	if sides == 4 {
		ctx.Input = [][]float32{}
	}
	var in, out []midi.Event
	tag := uint8(0)
	ordered := func(x []midi.Event, a, b int32) []midi.Event {
		y := Clone(x)
		sort.SliceStable(y, func(i, j int) bool { return y[i].SampleOffset() < y[j].SampleOffset() })
		var z []midi.Event
		for _, e := range y {
			if o := e.SampleOffset(); o >= a && o < b {
				z = append(z, e)
			}
		}
		return z
	}
	cmp := func(what string, got, want []midi.Event) {
		if len(got) != len(want) {
			t.Fatalf("%s: %d events, expected %d (%v, %v)", what, len(got), len(want), got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				t.Fatalf("%s: event %d is %v, expected %v", what, i, got[i], want[i])
			}
		}
	}
	both := 0
	for op := t.Size(1, 20, 400, "ops"); op > 0; op-- {
		k := t.Int(0, 9, "op")
		switch {
		case k < 6:
			tag++
			b := midi.BaseEvent{EventChannel: tag % 16, Offset: int32(t.Int(-2, n+4, "off"))}
			var e midi.Event = midi.NoteOnEvent{BaseEvent: b, NoteNumber: tag, Velocity: 1}
			switch t.Int(0, 2, "type") {
			case 1:
				e = midi.ControlChangeEvent{BaseEvent: b, Controller: tag, Value: 2}
			case 2:
				e = midi.PitchBendEvent{BaseEvent: b, Value: int16(tag)}
			}
			if k < 4 {
				ctx.AddInputEvent(e)
				in = append(in, e)
				both |= 1
			} else {
				ctx.AddOutputEvent(e)
				out = append(out, e)
				both |= 2
			}
			t.Desc(" %d@%d", k/4, b.Offset)
		case k == 6:
			switch t.Int(0, 2, "clear") {
			case 0:
				ctx.ClearInputEvents()
				in = nil
			case 1:
				ctx.ClearOutputEvents()
				out = nil
			case 2:
				ctx.ClearAllEvents()
				in, out = nil, nil
			}
			t.Desc(" clear")
		default:
			a, b := int32(t.Int(-3, n, "a")), int32(t.Int(0, n+6, "b"))
			cmp(fmt.Sprintf("input events in [%d,%d)", a, b), ctx.GetInputEvents(a, b), ordered(in, a, b))
			s := &sink{}
			if t.Int(0, 3, "answer") == 0 { // an instrument that answers each event
				s.fn = func(e midi.Event) {
					ctx.AddOutputEvent(e)
					out = append(out, e)
				}
			}
			ctx.ProcessEvents(s, a, b)
			cmp(fmt.Sprintf("visited events in [%d,%d)", a, b), s.got, ordered(in, a, b))
		}
		all := ordered(in, 0, int32(n))
		cmp("all input events of the block", ctx.GetAllInputEvents(), all)
		if ctx.HasInputEvents() != (len(all) > 0) {
			t.Fatalf("HasInputEvents is %v with %d events", ctx.HasInputEvents(), len(all))
		}
		cmp("output events", ctx.GetOutputEvents(), ordered(out, -100, 1<<30))
	}
	t.Nontrivial(both == 3)
}

func multibus(t *T) {
	n := t.Int(1, 12, "n")
	var ins, outs []process.BusBuffers
	special := false
	var infos []*bus.Info
	gen := func(label string) (r []process.BusBuffers) {
		for i := t.Size(0, 4, 40, label); i > 0; i-- {
			b := process.BusBuffers{Channels: genChans(t, n, "ch"), BusInfo: &bus.Info{
				Name: fmt.Sprintf("%s%d", label, i), BusType: bus.Type(t.Int(0, 1, "type")), IsActive: t.Bool("active")}}
			if len(infos) > 0 && t.Int(0, 9, "same info") == 0 { // described by the same record as another
				b.BusInfo = infos[t.Int(0, len(infos)-1, "which")]
			} else {
				b.BusInfo.ChannelCount = int32(len(b.Channels))
				infos = append(infos, b.BusInfo)
			}
			special = special || !b.BusInfo.IsActive || b.BusInfo.BusType == bus.TypeAux
			t.Desc(" %s:%d/%d/%v", label, len(b.Channels), b.BusInfo.BusType, b.BusInfo.IsActive)
			r = append(r, b)
		}
		return
	}
	ins, outs = gen("in"), gen("out")
	t.Nontrivial(special)
	m := process.NewMultiBusContext(process.NewContext(16, param.NewRegistry()), bus.NewStereoConfiguration())
	if m.NumInputBuses() != 0 || m.NumOutputBuses() != 0 || m.GetMainInput() != nil || m.GetMainOutput() != nil || m.GetSidechainInput() != nil {
		t.Fatalf("a new context already has buses")
	}
	m.InputBuses, m.OutputBuses = ins, outs
	same := func(a, b [][]float32) bool {
		return len(a) == len(b) && (a == nil) == (b == nil) && (len(a) == 0 || &a[0] == &b[0])
	}
	first := func(bs []process.BusBuffers, ty bus.Type) [][]float32 {
		for _, b := range bs {
			if b.BusInfo.BusType == ty {
				return b.Channels
			}
		}
		return nil
	}
	mi, mo, sc := first(ins, bus.TypeMain), first(outs, bus.TypeMain), first(ins, bus.TypeAux)
	if !same(m.GetMainInput(), mi) || !same(m.GetMainOutput(), mo) || !same(m.GetSidechainInput(), sc) {
		t.Fatalf("main or sidechain buffers are not those of the first such bus")
	}
	if m.NumInputBuses() != len(ins) || m.NumOutputBuses() != len(outs) {
		t.Fatalf("bus counts %d, %d", m.NumInputBuses(), m.NumOutputBuses())
	}
	at := func(bs []process.BusBuffers, i int) (c [][]float32, f *bus.Info) {
		if i >= 0 && i < len(bs) {
			return bs[i].Channels, bs[i].BusInfo
		}
		return nil, nil
	}
	for i := -2; i < 6; i++ {
		c, f := at(ins, i)
		d, g := at(outs, i)
		if !same(m.GetInputBus(i), c) || m.GetInputBusInfo(i) != f || !same(m.GetOutputBus(i), d) || m.GetOutputBusInfo(i) != g {
			t.Fatalf("bus %d is not the one configured", i)
		}
	}
	walk := func(bs []process.BusBuffers, do func(func(int, [][]float32, *bus.Info))) {
		var want, got []int
		for i, b := range bs {
			if b.BusInfo.IsActive {
				want = append(want, i)
			}
		}
		do(func(i int, c [][]float32, f *bus.Info) {
			got = append(got, i)
			if i < 0 || i >= len(bs) || !same(c, bs[i].Channels) || f != bs[i].BusInfo {
				t.Fatalf("visiting bus %d with the wrong buffers or description", i)
			}
		})
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("active buses are %v, visited %v", want, got)
		}
	}
	walk(ins, m.ProcessInputBuses)
	walk(outs, m.ProcessOutputBuses)
	calls := 0
	m.ProcessMainBuses(func(a, b [][]float32) {
		calls++
		if !same(a, mi) || !same(b, mo) {
			t.Fatalf("main buses visited with other buffers")
		}
	})
	m.ProcessWithSidechain(func(a, s, b [][]float32) {
		calls += 10
		if !same(a, mi) || !same(b, mo) || !same(s, sc) {
			t.Fatalf("sidechain processing visits other buffers")
		}
	})
	if want := map[bool]int{true: 11, false: 0}[mi != nil && mo != nil]; calls != want {
		t.Fatalf("main buses (%v,%v): %d calls instead of %d", mi != nil, mo != nil, calls, want)
	}
	snap := func(bs []process.BusBuffers) (r [][][]float32) {
		for _, b := range bs {
			r = append(r, clone2(b.Channels))
		}
		return
	}
	wi, wo := snap(ins), snap(outs)
	if t.Bool("clear") {
		m.ClearAllOutputs()
		for _, b := range wo {
			for _, c := range b {
				for i := range c {
					c[i] = 0
				}
			}
		}
		t.Desc(" clear")
	} else {
		m.PassThroughAll()
		for i := 0; i < min(len(wi), len(wo)); i++ {
			for c := 0; c < min(len(wi[i]), len(wo[i])); c++ {
				copy(wo[i][c], wi[i][c])
			}
		}
		t.Desc(" pass")
	}
	for i := range ins {
		if d := diff2(ins[i].Channels, wi[i]); d != "" {
			t.Fatalf("input bus %d changed: %s", i, d)
		}
	}
	for i := range outs {
		if d := diff2(outs[i].Channels, wo[i]); d != "" {
			t.Fatalf("output bus %d: %s", i, d)
		}
	}
}
