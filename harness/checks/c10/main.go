// C10: a bus configuration reports to the host exactly the buses declared.
package main

import (
	"fmt"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C10",
		Subs: []Sub{
			{Name: "builder", Quick: 56000, Thorough: 400000, Fn: builder,
				Rule: "random sequences of every builder call (any channel count, activations of existing and missing buses) against a plain list of buses: acceptance, counts, per-index descriptions, active totals, sidechain; then host-side activations; non-trivial: at least 3 buses of 2 kinds"},
			{Name: "templates", Quick: 29000, Thorough: 145000, Fn: templates,
				Rule: "every ready-made configuration with its size argument (also impossible ones) against its documented layout, then host-side activations; non-trivial: always"},
		},
	})
}

type B = bus.Info

// table answers the queries of a configuration from a plain list of buses.
type table []B

func (m table) sel(mt bus.MediaType, d bus.Direction) (r []int) {
	for i, b := range m {
		if b.MediaType == mt && b.Direction == d {
			r = append(r, i)
		}
	}
	return
}

func (m table) check(t *T, c *bus.Configuration) {
	for _, mt := range []bus.MediaType{bus.MediaTypeAudio, bus.MediaTypeEvent} {
		for _, d := range []bus.Direction{bus.DirectionInput, bus.DirectionOutput} {
			s := m.sel(mt, d)
			if n := c.GetBusCount(mt, d); int(n) != len(s) {
				t.Fatalf("media %d direction %d: %d buses reported, %d declared", mt, d, n, len(s))
			}
			var act []B
			for k, i := range s {
				got := c.GetBusInfo(mt, d, int32(k))
				if got == nil || *got != m[i] {
					t.Fatalf("media %d direction %d bus %d is %+v, declared %+v", mt, d, k, got, m[i])
				}
				if m[i].IsActive {
					act = append(act, m[i])
				}
			}
			for _, k := range []int32{-1, int32(len(s)), int32(len(s)) + 5, -1 << 31, 1<<31 - 1} {
				if got := c.GetBusInfo(mt, d, k); got != nil {
					t.Fatalf("media %d direction %d has %d buses but bus %d is %+v", mt, d, len(s), k, *got)
				}
			}
			if got := c.GetActiveBuses(mt, d); fmt.Sprint(got) != fmt.Sprint(act) {
				t.Fatalf("media %d direction %d: active buses %+v, expected %+v", mt, d, got, act)
			}
		}
	}
	var in, out int32
	var side *B
	for i, b := range m {
		if b.MediaType == bus.MediaTypeAudio && b.IsActive {
			if b.Direction == bus.DirectionInput {
				in += b.ChannelCount
			} else {
				out += b.ChannelCount
			}
		}
		if side == nil && b.MediaType == bus.MediaTypeAudio && b.Direction == bus.DirectionInput && b.BusType == bus.TypeAux {
			side = &m[i]
		}
	}
	if a, b := c.GetActiveInputChannelCount(), c.GetActiveOutputChannelCount(); a != in || b != out {
		t.Fatalf("active channels %d in, %d out; the active buses have %d and %d", a, b, in, out)
	}
	got := c.GetSidechainBus()
	if c.HasSidechain() != (side != nil) || (got == nil) != (side == nil) || side != nil && *got != *side {
		t.Fatalf("sidechain %v %+v, expected %+v", c.HasSidechain(), got, side)
	}
	if side != nil { // what the plugin got at its start shows later activations
		for i := int32(0); ; i++ {
			b := c.GetBusInfo(bus.MediaTypeAudio, bus.DirectionInput, i)
			if b == nil {
				t.Fatalf("the sidechain %+v is not among the inputs", got)
			}
			if b.BusType != bus.TypeAux {
				continue
			}
			was := b.IsActive
			_ = c.SetBusActive(bus.MediaTypeAudio, bus.DirectionInput, i, !was)
			if got.IsActive == was || b.IsActive == was {
				t.Fatalf("the sidechain was switched to %v, its description still says %v (%v)", !was, got.IsActive, b.IsActive)
			}
			_ = c.SetBusActive(bus.MediaTypeAudio, bus.DirectionInput, i, was)
			break
		}
	}
}

// hostOps activates and deactivates buses the way a host does.
func (m table) hostOps(t *T, c *bus.Configuration) table {
	for k := t.Size(0, 6, 100, "hostops"); k > 0; k-- {
		mt, d := bus.MediaType(t.Int(0, 1, "media")), bus.Direction(t.Int(0, 1, "dir"))
		if t.Int(0, 9, "addev") == 0 {
			name := Pick(t, "evname", "MIDI", "", "Ev")
			c.AddEventBus(d, name)
			m = append(m, B{MediaType: bus.MediaTypeEvent, Direction: d, ChannelCount: 1, Name: name, BusType: bus.TypeMain, IsActive: true})
			t.Desc(" addevent%d", d)
		} else {
			i, on := t.Size(0, 5, 50, "i")-1, t.Bool("on")
			err := c.SetBusActive(mt, d, int32(i), on)
			s := m.sel(mt, d)
			ok := i >= 0 && i < len(s)
			if (err == nil) != ok {
				t.Fatalf("activating bus %d of %d (media %d direction %d): error %v", i, len(s), mt, d, err)
			}
			if ok {
				m[s[i]].IsActive = on
			}
			t.Desc(" act(%d,%d,%d,%v)", mt, d, i, on)
		}
		m.check(t, c)
	}
	return m
}

func builder(t *T) {
	b := bus.NewBuilder()
	var m table
	bad := false
	add := func(mt bus.MediaType, d bus.Direction, ch int32, ty bus.Type, name string) {
		m = append(m, B{MediaType: mt, Direction: d, ChannelCount: ch, Name: name, BusType: ty, IsActive: ty == bus.TypeMain})
	}
	const au, ev = bus.MediaTypeAudio, bus.MediaTypeEvent
	const in, out = bus.DirectionInput, bus.DirectionOutput
	chans := func() int32 {
		if t.Int(0, 15, "badch") == 0 {
			return Pick(t, "ch", int32(0), -1, 33, 64, -1<<31, 1<<31-1)
		}
		return Pick(t, "ch", int32(1), 2, 31, 32, int32(t.Int(1, 32, "chn")))
	}
	kinds := map[string]bool{}
	for k := t.Size(0, 8, 150, "calls"); k > 0; k-- {
		name := Pick(t, "name", "A", "B", "Main", "")
		op := t.Int(0, 18, "call")
		t.Desc(" %d", op)
		prev := b
		switch op {
		case 0:
			c := chans()
			b = b.WithAudioInput(name, c)
			add(au, in, c, bus.TypeMain, name)
		case 1, 17:
			c := chans()
			b = b.WithAudioOutput(name, c)
			add(au, out, c, bus.TypeMain, name)
		case 2:
			c := chans()
			b = b.WithAuxInput(name, c)
			add(au, in, c, bus.TypeAux, name)
		case 3:
			c := chans()
			b = b.WithAuxOutput(name, c)
			add(au, out, c, bus.TypeAux, name)
		case 4:
			b = b.WithEventInput(name)
			add(ev, in, 1, bus.TypeMain, name)
		case 5:
			b = b.WithEventOutput(name)
			add(ev, out, 1, bus.TypeMain, name)
		case 6:
			b = b.WithStereoInput(name)
			add(au, in, 2, bus.TypeMain, name)
		case 7, 18:
			b = b.WithStereoOutput(name)
			add(au, out, 2, bus.TypeMain, name)
		case 8:
			b = b.WithMonoInput(name)
			add(au, in, 1, bus.TypeMain, name)
		case 9:
			b = b.WithMonoOutput(name)
			add(au, out, 1, bus.TypeMain, name)
		case 10:
			b = b.WithSidechain(name)
			add(au, in, 2, bus.TypeAux, name)
		case 11:
			b = b.WithQuadInput(name)
			add(au, in, 4, bus.TypeMain, name)
			b = b.WithQuadOutput(name)
			add(au, out, 4, bus.TypeMain, name)
		case 12:
			b = b.With5_1Input(name)
			add(au, in, 6, bus.TypeMain, name)
		case 13:
			b = b.With5_1Output(name)
			add(au, out, 6, bus.TypeMain, name)
		case 14:
			b = b.With7_1Input(name)
			add(au, in, 8, bus.TypeMain, name)
			b = b.With7_1Output(name)
			add(au, out, 8, bus.TypeMain, name)
		default:
			mt, d, i, on := bus.MediaType(t.Int(0, 1, "media")), bus.Direction(t.Int(0, 1, "dir")), t.Int(-1, 3, "i"), t.Bool("on")
			if t.Int(0, 3, "exist") != 0 {
				if s := m.sel(mt, d); len(s) == 0 {
					continue
				} else {
					i = t.Int(0, len(s)-1, "i2")
				}
			}
			b = b.SetBusActive(mt, d, int32(i), on)
			if s := m.sel(mt, d); i >= 0 && i < len(s) {
				m[s[i]].IsActive = on
			} else {
				bad = true
			}
			t.Desc("(%d,%d,%d,%v)", mt, d, i, on)
		}
		if b != prev {
			t.Fatalf("call %d returns another builder", op)
		}
	}
	mainOut, chOK := false, true
	for _, x := range m {
		kinds[fmt.Sprint(x.MediaType, x.Direction, x.BusType)] = true
		mainOut = mainOut || x.Direction == out && x.BusType == bus.TypeMain
		if x.MediaType == au && (x.ChannelCount < 1 || x.ChannelCount > 32) {
			chOK = false
		}
	}
	ok := !bad && mainOut && chOK
	t.Nontrivial(len(m) >= 3 && len(kinds) >= 2)
	if err := b.Validate(); (err == nil) != ok {
		t.Fatalf("Validate: %v; missing bus addressed %v, main output %v, channel counts in range %v", err, bad, mainOut, chOK)
	}
	c, err := b.Build()
	if (err == nil) != ok || (c != nil) != ok {
		t.Fatalf("Build gives %v, %v for %+v", c, err, m)
	}
	if p := Catch(func() { c = b.MustBuild() }); (p == "") != ok {
		t.Fatalf("MustBuild panics with %q for %+v", p, m)
	}
	if !ok {
		t.Class("rejected")
		return
	}
	t.Class("accepted")
	m.check(t, c)
	m.hostOps(t, c)
}

func templates(t *T) {
	const au, ev = bus.MediaTypeAudio, bus.MediaTypeEvent
	in := func(n string, ch int32) B { return B{au, bus.DirectionInput, ch, n, bus.TypeMain, true} }
	out := func(n string, ch int32) B { return B{au, bus.DirectionOutput, ch, n, bus.TypeMain, true} }
	auxIn := func(n string, ch int32) B { return B{au, bus.DirectionInput, ch, n, bus.TypeAux, false} }
	auxOut := func(n string, ch int32) B { return B{au, bus.DirectionOutput, ch, n, bus.TypeAux, false} }
	n := t.Size(0, 41, 400, "n") - 1
	if t.Bool("small") {
		n = t.Int(0, 5, "n2")
	}
	sends := table{in("Channel In", 2), out("Main Out", 2)}
	bands := table{in("Stereo In", 2)}
	split := table{in("Input", 2)}
	for i := 1; i <= n; i++ {
		sends = append(sends, auxOut(fmt.Sprintf("Send %d", i), 2))
		bands = append(bands, auxOut(fmt.Sprintf("Band %d", i), 2))
		split = append(split, out(fmt.Sprintf("Output %d", i), 2))
	}
	bands = append(bands, out("Main Out", 2))
	type tc struct {
		name string
		mk   func() *bus.Configuration
		want table
		ok   bool
	}
	all := []tc{
		{"stereo", bus.NewStereoConfiguration, table{in("Stereo In", 2), out("Stereo Out", 2)}, true},
		{"mono", bus.NewMonoConfiguration, table{in("Mono In", 1), out("Mono Out", 1)}, true},
		{"effect stereo", bus.NewEffectStereo, table{in("Stereo In", 2), out("Stereo Out", 2)}, true},
		{"effect mono", bus.NewEffectMono, table{in("Mono In", 1), out("Mono Out", 1)}, true},
		{"sidechain", bus.NewEffectStereoSidechain, table{in("Stereo In", 2), out("Stereo Out", 2), auxIn("Sidechain In", 2)}, true},
		{"mono to stereo", bus.NewMonoToStereo, table{in("Mono In", 1), out("Stereo Out", 2)}, true},
		{"stereo to mono", bus.NewStereoToMono, table{in("Stereo In", 2), out("Mono Out", 1)}, true},
		{"dual mono", bus.NewDualMono, table{in("Left In", 1), in("Right In", 1), out("Left Out", 1), out("Right Out", 1)}, true},
		{"mid side", bus.NewMidSideProcessor, table{in("Stereo In", 2), out("Stereo Out", 2), auxOut("Mid", 1), auxOut("Side", 1)}, true},
		{"surround panner", bus.NewSurroundPanner, table{in("Stereo In", 2), out("5.1 Out", 6)}, true},
		{"5.1", bus.NewSurround5_1Effect, table{in("5.1 In", 6), out("5.1 Out", 6)}, true},
		{"7.1", bus.NewSurround7_1Effect, table{in("7.1 In", 8), out("7.1 Out", 8)}, true},
		{"analyzer", bus.NewAnalyzer, table{in("Analysis In", 2), out("Thru Out", 2)}, true},
		{"generator", bus.NewGenerator, table{out("Stereo Out", 2), {ev, bus.DirectionInput, 1, "MIDI In", bus.TypeMain, true}}, true},
		{"midi effect", bus.NewMIDIEffect, table{{ev, bus.DirectionInput, 1, "MIDI In", bus.TypeMain, true}, {ev, bus.DirectionOutput, 1, "MIDI Out", bus.TypeMain, true}}, true},
		{"vocoder", bus.NewVocoder, table{in("Voice In", 1), out("Vocoded Out", 1), auxIn("Carrier In", 2)}, true},
		{"mixer channel", func() *bus.Configuration { return bus.NewMixerChannel(n) }, sends, true},
		{"crossover", func() *bus.Configuration { return bus.NewCrossover(n) }, bands, true},
		{"splitter", func() *bus.Configuration { return bus.NewSplitter(n) }, split, n >= 1},
		{"multichannel", func() *bus.Configuration { return bus.NewMultiChannelEffect(int32(n)) }, table{in("Multi In", int32(n)), out("Multi Out", int32(n))}, n >= 1 && n <= 32},
	}
	k := all[t.Int(0, len(all)-1, "template")]
	if i := t.Int(0, 8, "sized"); i < 4 {
		k = all[len(all)-1-i]
	}
	t.Nontrivial(true)
	t.Desc("%s(%d)", k.name, n)
	var c, other *bus.Configuration
	p := Catch(func() { c = k.mk() })
	if (p == "") != k.ok {
		t.Fatalf("%s of size %d: panic %q", k.name, n, p)
	}
	if !k.ok {
		return
	}
	k.want.check(t, c)
	other = k.mk()
	fresh := table(Clone(k.want))
	k.want.hostOps(t, c)
	fresh.check(t, other) // configurations are independent of each other
}
