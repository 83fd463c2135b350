// C05: registries keep every parameter reachable under one id, in order.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"pgregory.net/rapid"
	"vst3verif/conc"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C05",
		Subs: []Sub{
			{Name: "registry", Quick: 52000, Thorough: 800000, Fn: registry,
				Rule: "random batches with duplicate ids against an ordered-map model; lookups by id and index in and out of range; non-trivial: a duplicate was offered"},
			{Name: "auto", Quick: 25000, Thorough: 800000, Steps: 25, Fn: auto,
				Rule: "sequences of automatic, explicit and reserved registrations, re-registrations by name, clears, standard control groups, against a model in which an automatic id is the first one above everything used; non-trivial: an automatic id after an explicit or reserved one"},
			{Name: "threads", Quick: 1500, Thorough: 30000, Fn: conc.Registration,
				Rule: "2-4 threads register parameters with automatic, explicit, reserved and repeated ids while others list, look up and save; every listing is a complete beginning of the final one, ids are unique, reserved ranges hold only what asked for them, every success is found and one of several claims to an id wins; under the race detector. Non-trivial: a listing saw part of the parameters"},
		},
		Assumptions: []string{"explicit registrations use names not yet taken", "ids are not reserved up to the end of the 32-bit range"},
	})
}

type base interface {
	Get(uint32) *param.Parameter
	GetByIndex(int32) *param.Parameter
	Count() int32
	All() []*param.Parameter
}

func same(t *T, r base, order []uint32, m map[uint32]*param.Parameter, probe []uint32) {
	if int(r.Count()) != len(order) {
		t.Fatalf("count %d, expected %d", r.Count(), len(order))
	}
	all := r.All()
	if len(all) != len(order) {
		t.Fatalf("listing has %d entries, expected %d", len(all), len(order))
	}
	for i, id := range order {
		if all[i] != m[id] || r.GetByIndex(int32(i)) != m[id] || r.Get(id) != m[id] || m[id].ID != id {
			t.Fatalf("parameter #%d (id %d): listing %p, by index %p, by id %p (carrying id %d), expected %p", i, id, all[i], r.GetByIndex(int32(i)), r.Get(id), m[id].ID, m[id])
		}
	}
	for _, i := range []int32{-1, int32(len(order)), math.MinInt32, math.MaxInt32} {
		if r.GetByIndex(i) != nil {
			t.Fatalf("index %d of %d gives a parameter", i, len(order))
		}
	}
	for _, id := range probe {
		if r.Get(id) != m[id] {
			t.Fatalf("id %d gives %p, expected %p", id, r.Get(id), m[id])
		}
	}
	if len(all) > 0 { // the listing is the caller's own
		all[0] = nil
		if r.GetByIndex(0) == nil {
			t.Fatalf("changing the returned listing changes the registry")
		}
	}
}

func registry(t *T) {
	r := param.NewRegistry()
	var order []uint32
	m := map[uint32]*param.Parameter{}
	dup := false
	for n := t.Int(1, 8, "calls"); n > 0; n-- {
		var batch []*param.Parameter
		k := t.Size(0, 6, 800, "batch")
		many := t.IDs(k, "many")
		for ; k > 0; k-- {
			id := many[k-1]
			if k < 20 {
				id = rapid.OneOf(rapid.Uint32Range(0, 15), rapid.Uint32()).Draw(t.T, "id")
			}
			p := param.New(id, fmt.Sprintf("p%d", len(order))).Build()
			batch = append(batch, p)
			if _, ok := m[id]; ok {
				dup = true
			} else {
				m[id] = p
				order = append(order, id)
			}
			t.Desc(" %d", id)
		}
		if err := r.Add(batch...); err != nil {
			t.Fatalf("Add: %v", err)
		}
		same(t, r, order, m, []uint32{0, 1, 5, 15, 16, math.MaxUint32})
	}
	t.Nontrivial(dup)
}

func auto(t *T) {
	r := param.NewAutoRegistry()
	var order []uint32
	m := map[uint32]*param.Parameter{}
	names := map[string]uint32{}
	next := uint32(0)
	autoOn := true
	fresh := 0
	values := map[*param.Parameter]float64{}
	manual := false
	put := func(p *param.Parameter, id uint32) {
		order = append(order, id)
		m[id] = p
		names[p.Name] = id
		if id >= next && id != math.MaxUint32 {
			next = id + 1
		}
	}
	newName := func() string { fresh++; return fmt.Sprintf("n%d", fresh) }
	mk := func(id uint32) *param.Parameter {
		name := newName()
		if len(names) > 0 && t.Int(0, 3, "old") == 0 {
			name = fmt.Sprintf("n%d", t.Int(1, fresh, "which"))
		}
		if t.Int(0, 5, "unnamed") == 0 { // a name like any other
			name = Pick(t, "odd", "", " ", "é")
		}
		p := param.New(id, name).Build()
		p.SetValue(t.U(0, 1, "value"))
		values[p] = p.GetValue()
		return p
	}
	// expect mirrors one automatic registration; it reports whether it must fail
	expect := func(p *param.Parameter) bool {
		if id, ok := names[p.Name]; ok {
			m[id] = p
			return false
		}
		id := p.ID
		if autoOn && id == 0 {
			id = next
			t.Nontrivial(manual)
		}
		if _, ok := m[id]; ok {
			return true
		}
		put(p, id)
		return false
	}
	small := rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32Range(1<<20, 1<<20+5), rapid.Just(uint32(math.MaxUint32)))
	group := func(names ...string) {
		for _, n := range names {
			if err := r.GetByName(n); err == nil {
				t.Fatalf("control %q was not registered", n)
			}
		}
	}
	t.Repeat(map[string]func(*rapid.T){
		"register": func(*rapid.T) {
			var batch []*param.Parameter
			fail := false
			n := t.Size(1, 3, 200, "n")
			var type2 []*param.Parameter
			for i := 0; i < n; i++ {
				id := uint32(0)
				if t.Int(0, 3, "explicit") == 0 {
					id = small.Draw(t.T, "id")
				}
				p := mk(id)
				batch = append(batch, p)
				t.Desc(" r%d/%s", id, p.Name)
			}
			// names within a batch stay distinct from one another
			seen := map[string]bool{}
			for _, p := range batch {
				if !seen[p.Name] {
					seen[p.Name] = true
					type2 = append(type2, p)
				}
			}
			for _, p := range type2 {
				if p.ID != 0 {
					manual = true
				}
				if expect(p) {
					fail = true
					break
				}
			}
			if err := r.Register(type2...); (err != nil) != fail {
				t.Fatalf("Register gives error %v, expected failure: %v", err, fail)
			}
		},
		"registerID": func(*rapid.T) {
			id := small.Draw(t.T, "id")
			p := param.New(0, newName()).Build()
			_, taken := m[id]
			err := r.RegisterWithID(id, p)
			if (err != nil) != taken {
				t.Fatalf("RegisterWithID(%d) gives error %v, id taken: %v", id, err, taken)
			}
			if !taken {
				put(p, id)
			}
			manual = true
			t.Desc(" x%d", id)
		},
		"reserve": func(*rapid.T) {
			n := uint32(t.Size(0, 40, 100000, "n"))
			if got := r.Reserve(n); got != next {
				t.Fatalf("Reserve(%d) starts at %d, expected %d", n, got, next)
			}
			next += n
			manual = true
			t.Desc(" v%d", n)
		},
		"mode": func(*rapid.T) { autoOn = t.Bool("auto"); r.EnableAutoID(autoOn); t.Desc(" a%v", autoOn) },
		"clear": func(*rapid.T) {
			if t.Int(0, 4, "really") > 0 {
				t.Skip("not now")
			}
			r.Clear()
			order, m, names, next, manual = nil, map[uint32]*param.Parameter{}, map[string]uint32{}, 0, false
			t.Desc(" c")
		},
		"builder": func(*rapid.T) {
			b := param.NewRegistryBuilder(r)
			bad := false
			for i := t.Size(1, 3, 40, "n"); i > 0; i-- {
				if t.Bool("withID") {
					id := small.Draw(t.T, "id")
					p := param.New(0, newName()).Build()
					b.AddWithID(id, p)
					if _, ok := m[id]; ok {
						bad = true
					} else {
						put(p, id)
					}
					manual = true
				} else {
					p := mk(0)
					b.Add(p)
					bad = expect(p) || bad
				}
			}
			if err := b.Build(); (err != nil) != bad {
				t.Fatalf("builder reports %v, expected failure: %v", err, bad)
			}
			t.Desc(" b")
		},
		"group": func(*rapid.T) {
			if !autoOn {
				t.Skip("groups need automatic ids")
			}
			var want []string
			var err error
			switch t.Int(0, 2, "group") {
			case 0:
				want = []string{"Bypass", "Mix", "Input Gain", "Output Gain"}
				err = r.RegisterStandardControls()
			case 1:
				want = []string{"Threshold", "Ratio", "Attack", "Release", "Knee", "Auto Gain"}
				err = r.RegisterCompressorControls()
			case 2:
				k := Pick(t, "band", 0, 1, 2, 3, -1, 10, 256, 257, 1000, 65536)
				for _, s := range []string{"Enable", "Frequency", "Gain", "Q", "Type"} {
					want = append(want, fmt.Sprintf("Band %d %s", k, s))
				}
				err = r.RegisterEQBand(k)
			}
			if err != nil {
				t.Fatalf("standard group: %v", err)
			}
			group(want...)
			for _, n := range want {
				p := r.GetByName(n)
				if id, ok := names[n]; ok {
					m[id] = p
				} else {
					put(p, next)
				}
			}
			for _, n := range want {
				declared(t, n, r.GetByName(n))
			}
			t.Desc(" g%s", want[0])
		},
		"": func(*rapid.T) {
			same(t, r, order, m, []uint32{0, 1, 7, next})
			for n, id := range names {
				if g, ok := r.GetID(n); !ok || g != id || r.GetByName(n) != m[id] {
					t.Fatalf("name %q gives id %d (%v), expected %d", n, g, ok, id)
				}
			}
			for p, v := range values {
				if p.GetValue() != v {
					t.Fatalf("registering parameter %q changed its value from %v to %v", p.Name, v, p.GetValue())
				}
			}
			for i := 1; i <= fresh; i++ {
				n := fmt.Sprintf("n%d", i)
				if _, ok := names[n]; ok {
					continue
				}
				if id, ok := r.GetID(n); ok || r.GetByName(n) != nil {
					t.Fatalf("name %q, which was never registered, gives id %d", n, id)
				}
			}
			if _, ok := r.GetID("nobody"); ok || r.GetByName("nobody") != nil {
				t.Fatalf("an unknown name gives a parameter")
			}
		},
	})
}

// declared checks a control of a standard group against what the group is
// documented to hold.
func declared(t *T, name string, p *param.Parameter) {
	w := strings.Fields(name)
	if w[0] == "Band" {
		name = w[2]
	}
	var want struct {
		lo, hi, def float64
		steps       int32
		lowText     string
		highText    string
	}
	set := func(lo, hi, def float64, steps int32, l, h string) {
		want.lo, want.hi, want.def, want.steps, want.lowText, want.highText = lo, hi, def, steps, l, h
	}
	switch name {
	case "Bypass", "Auto Gain", "Enable":
		set(0, 1, 0, 1, "Active", "Bypassed")
	case "Mix":
		set(0, 100, 100, 0, "0%", "100%")
	case "Input Gain", "Output Gain", "Gain":
		set(-80, 12, 0, 0, "-∞ dB", "12.0 dB")
	case "Threshold":
		set(-60, 0, -20, 0, "-∞ dB", "0.0 dB")
	case "Ratio":
		set(1, 20, 4, 0, "1.0:1", "20.0:1")
	case "Attack":
		set(0.1, 100, 10, 0, "0.1 ms", "100.0 ms")
	case "Release":
		set(1, 1000, 100, 0, "1.0 ms", "1.00 s")
	case "Knee":
		set(0, 10, 2, 0, "0.0 dB", "10.0 dB")
	case "Frequency":
		set(20, 20000, 1000, 0, "20.0 Hz", "20.00 kHz")
	case "Q":
		set(0.1, 10, 0.7, 0, "Q: 0.10", "Q: 10.00")
	case "Type":
		set(0, 5, 0, 5, "Bell", "Notch")
		for i, n := range []string{"Bell", "Low Shelf", "High Shelf", "Low Pass", "High Pass", "Notch"} {
			if got := p.FormatValue(float64(i) / 5); got != n {
				t.Fatalf("filter type %d of an equalizer band is %q, documented %q", i, got, n)
			}
		}
	default:
		t.Fatalf("no documented control %q", name)
	}
	if p.Min != want.lo || p.Max != want.hi || p.StepCount != want.steps || !(math.Abs(p.Denormalize(p.DefaultValue)-want.def) <= 1e-9*(1+want.hi)) {
		t.Fatalf("control %q is [%v,%v] default %v steps %d, documented [%v,%v] default %v steps %d", name, p.Min, p.Max, p.Denormalize(p.DefaultValue), p.StepCount, want.lo, want.hi, want.def, want.steps)
	}
	if l, h := p.FormatValue(0), p.FormatValue(1); l != want.lowText || h != want.highText {
		t.Fatalf("control %q runs from %q to %q, documented from %q to %q", name, l, h, want.lowText, want.highText)
	}
}
