// C03: parameter values stay in [0,1] and map onto the plain range.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"pgregory.net/rapid"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C03",
		Subs: []Sub{
			{Name: "mapping", Quick: 350000, Thorough: 4000000, Fn: mapping,
				Rule: "random ranges (tiny, huge, negative, empty) and pairs of values; inverse, monotone, end points, against the affine map; non-trivial: a proper range with both values inside"},
			{Name: "setters", Quick: 180000, Thorough: 1500000, Fn: setters,
				Rule: "sequences of normalized and plain writes including NaN, infinities and out-of-range values against a model; non-trivial: an out-of-range or NaN write followed by an in-range one"},
			{Name: "builder", Quick: 470000, Thorough: 2350000, Fn: builder,
				Rule: "random chains of builder calls against a model of what each sets; non-trivial: at least 4 calls including Default"},
			{Name: "ready-made", Quick: 230000, Thorough: 1150000, Fn: readyMade,
				Rule: "each ready-made parameter with random ids, names, ranges and defaults against the table of what its documentation declares (range, default, unit, steps, flags); non-trivial: one with a range or default of its own"},
		},
	})
}

func edge(t *T, label string, lo, hi float64) float64 {
	switch t.Int(0, 9, label+".k") {
	case 0:
		return Pick(t, label, math.NaN(), math.Inf(1), math.Inf(-1), -1e-300, 1+1e-9, -1, 2, 1e308, -1e308, math.Nextafter(1, 2), math.SmallestNonzeroFloat64)
	case 1:
		return lo - (hi-lo)*t.U(0, 3, label)
	case 2:
		return hi + (hi-lo)*t.U(0, 3, label)
	default:
		return t.U(lo, hi, label)
	}
}

func clamp(v float64) float64 {
	if !(v >= 0) {
		return 0
	}
	return math.Min(v, 1)
}

func genRange(t *T) (lo, hi float64) {
	switch t.Int(0, 7, "range") {
	case 0:
		return 0, 1
	case 1:
		return 20, 20000
	case 2:
		return -96, 12
	case 3: // empty or reversed
		lo = t.U(-10, 10, "lo")
		return lo, lo - Pick(t, "d", 0, 1.0)
	case 4:
		lo = t.U(-1, 1, "lo")
		return lo, lo + t.LogU(1e-6, 1e-2, "span")
	case 5:
		lo = t.U(-1e6, 1e6, "lo")
		return lo, lo + t.LogU(1, 1e7, "span")
	default:
		lo = t.U(-100, 100, "lo")
		return lo, lo + t.LogU(1e-2, 1e3, "span")
	}
}

// dress gives a parameter properties that have no influence on its value.
func dress(t *T, b *param.Builder) *param.Builder {
	if t.Bool("plainly") {
		return b
	}
	if k := t.Int(0, 40, "steps"); k > 0 {
		b.Steps(int32(k))
		t.Desc("steps=%d ", k)
	}
	if t.Bool("flags") {
		b.Flags(Pick(t, "flag", param.CanAutomate, param.IsReadOnly, param.IsWrapAround, param.IsList, param.IsHidden, param.IsProgramChange, param.IsBypass))
	}
	if t.Bool("unit") {
		b.Unit(Pick(t, "u", "dB", "Hz", "%")).Formatter(param.DecibelFormatter, param.DecibelParser)
	}
	return b
}

func mapping(t *T) {
	lo, hi := genRange(t)
	p := dress(t, param.New(1, "p").Range(lo, hi)).Build()
	span := hi - lo
	mag := math.Max(math.Abs(lo), math.Abs(hi))
	eps := 4e-15 * mag // in plain units
	a, b := edge(t, "a", lo, math.Max(lo, hi)), edge(t, "b", lo, math.Max(lo, hi))
	na, nb := p.Normalize(a), p.Normalize(b)
	for i, n := range []float64{na, nb} {
		if !(n >= 0 && n <= 1) {
			t.Fatalf("range [%v,%v]: Normalize(%v)=%v is outside [0,1]", lo, hi, []float64{a, b}[i], n)
		}
	}
	if span <= 0 {
		if na != 0 || nb != 0 {
			t.Fatalf("empty range [%v,%v]: Normalize gives %v, %v", lo, hi, na, nb)
		}
		p.SetPlainValue(a)
		if p.GetValue() != 0 {
			t.Fatalf("empty range [%v,%v]: SetPlainValue(%v) stores %v", lo, hi, a, p.GetValue())
		}
		return
	}
	want := clamp((a - lo) / span)
	if !(math.Abs(na-want) <= 1e-12) {
		t.Fatalf("range [%v,%v]: Normalize(%v)=%v, the affine map gives %v", lo, hi, a, na, want)
	}
	if a <= b && na > nb || a >= b && na < nb {
		t.Fatalf("range [%v,%v]: Normalize is not monotone: %v->%v, %v->%v", lo, hi, a, na, b, nb)
	}
	if a >= lo && a <= hi {
		if back := p.Denormalize(na); !(math.Abs(back-a) <= eps+1e-15*span) {
			t.Fatalf("range [%v,%v]: %v normalizes to %v and back to %v", lo, hi, a, na, back)
		}
	}
	u, v := t.U(0, 1, "u"), t.U(0, 1, "v")
	du, dv := p.Denormalize(u), p.Denormalize(v)
	if u < v && du > dv {
		t.Fatalf("range [%v,%v]: Denormalize is not monotone at %v, %v", lo, hi, u, v)
	}
	if !(math.Abs(du-(lo+u*span)) <= eps) || du < lo-eps || du > hi+eps {
		t.Fatalf("range [%v,%v]: Denormalize(%v)=%v", lo, hi, u, du)
	}
	if d := math.Abs(p.Normalize(du) - u); d > 1e-13+4*eps/span {
		t.Fatalf("range [%v,%v]: %v denormalizes to %v and back to %v", lo, hi, u, du, p.Normalize(du))
	}
	if p.Denormalize(0) != lo || !(math.Abs(p.Denormalize(1)-hi) <= eps) || p.Normalize(lo) != 0 || p.Normalize(hi) != 1 {
		t.Fatalf("range [%v,%v]: end points map to %v,%v / %v,%v", lo, hi, p.Denormalize(0), p.Denormalize(1), p.Normalize(lo), p.Normalize(hi))
	}
	t.Desc("[%v,%v] a=%v b=%v u=%v v=%v", lo, hi, a, b, u, v)
	t.Nontrivial(a > lo && a < hi && b > lo && b < hi)
}

func setters(t *T) {
	lo, hi := genRange(t)
	p := dress(t, param.New(1, "p").Range(lo, hi)).Build()
	model := 0.0
	bad, good := false, false
	check := func(op string, x float64) {
		g := p.GetValue()
		if !(g >= 0 && g <= 1) {
			t.Fatalf("%s(%v) leaves %v", op, x, g)
		}
		if !(math.Abs(g-model) <= 1e-12) {
			t.Fatalf("%s(%v): value is %v, expected %v", op, x, g, model)
		}
		if pv := p.GetPlainValue(); !(math.Abs(pv-(lo+g*(hi-lo))) <= 1e-14*math.Max(math.Abs(lo), math.Abs(hi))) {
			t.Fatalf("plain value %v for normalized %v in [%v,%v]", pv, g, lo, hi)
		}
	}
	for i := t.Int(1, 12, "n"); i > 0; i-- {
		if t.Bool("plain") {
			x := edge(t, "x", lo, math.Max(lo, hi))
			p.SetPlainValue(x)
			model = 0
			if hi > lo {
				model = clamp((x - lo) / (hi - lo))
			}
			t.Desc(" P%v", x)
			check("SetPlainValue", x)
		} else {
			x := edge(t, "x", 0, 1)
			p.SetValue(x)
			model = clamp(x)
			t.Desc(" N%v", x)
			check("SetValue", x)
			if x >= 0 && x <= 1 {
				if p.GetValue() != x {
					t.Fatalf("SetValue(%v) stores %v", x, p.GetValue())
				}
				good = good || bad
			} else {
				bad = true
			}
		}
	}
	t.Nontrivial(good)
}

func builder(t *T) {
	id := rapid.Uint32().Draw(t.T, "id")
	m := param.Parameter{ID: id, Name: "name", ShortName: "name", Min: 0, Max: 1, Flags: param.CanAutomate}
	b := param.New(id, "name")
	calls, def := 0, false
	for i := t.Int(0, 9, "n"); i > 0; i-- {
		calls++
		switch t.Int(0, 9, "call") {
		case 0:
			b.ShortName("short")
			m.ShortName = "short"
			t.Desc(" short")
		case 1:
			if def {
				continue // a default given before the range has no documented meaning
			}
			lo, hi := genRange(t)
			b.Range(lo, hi)
			m.Min, m.Max = lo, hi
			t.Desc(" range(%v,%v)", lo, hi)
		case 2, 3:
			x := edge(t, "d", m.Min, math.Max(m.Min, m.Max))
			b.Default(x)
			if m.Max > m.Min {
				m.DefaultValue = clamp((x - m.Min) / (m.Max - m.Min))
			}
			def = true
			t.Desc(" default(%v)", x)
		case 4:
			b.Unit("u")
			m.Unit = "u"
		case 5:
			n := int32(t.Int(0, 100, "steps"))
			b.Steps(n)
			m.StepCount = n
		case 6:
			f := rapid.Uint32().Draw(t.T, "flags")
			b.Flags(f)
			m.Flags = f
		case 7:
			b.ReadOnly()
			m.Flags = (m.Flags | param.IsReadOnly) &^ param.CanAutomate
			t.Desc(" ro")
		case 8:
			if t.Bool("hb") {
				b.Hidden()
				m.Flags |= param.IsHidden
			} else {
				b.Bypass()
				m.Flags |= param.IsBypass
			}
			t.Desc(" hb")
		case 9:
			if def {
				continue
			}
			b.Toggle()
			m.Min, m.Max, m.StepCount, m.DefaultValue = 0, 1, 1, 0
			t.Desc(" toggle")
		}
	}
	p := b.Build()
	if p.ID != m.ID || p.Name != m.Name || p.ShortName != m.ShortName || p.Unit != m.Unit || p.Min != m.Min || p.Max != m.Max ||
		p.StepCount != m.StepCount || p.Flags != m.Flags || !(math.Abs(p.DefaultValue-m.DefaultValue) <= 1e-12) {
		t.Fatalf("built %d %q %q %q [%v,%v] steps %d flags %x default %v; expected %d %q %q %q [%v,%v] steps %d flags %x default %v",
			p.ID, p.Name, p.ShortName, p.Unit, p.Min, p.Max, p.StepCount, p.Flags, p.DefaultValue,
			m.ID, m.Name, m.ShortName, m.Unit, m.Min, m.Max, m.StepCount, m.Flags, m.DefaultValue)
	}
	if !(p.DefaultValue >= 0 && p.DefaultValue <= 1) {
		t.Fatalf("default %v is outside [0,1]", p.DefaultValue)
	}
	if p.GetValue() != p.DefaultValue {
		t.Fatalf("a new parameter starts at %v, its default is %v", p.GetValue(), p.DefaultValue)
	}
	t.Nontrivial(calls >= 4 && def)
}

// readyMade checks the declared range, default, unit, steps and flags of the
// parameters the library offers ready-made.
func readyMade(t *T) {
	id := rapid.Uint32().Draw(t.T, "id")
	name := Pick(t, "name", "p", "Mix", "", "Größe")
	lo := t.U(-100, 100, "lo")
	hi := lo + t.LogU(0.1, 1e4, "span")
	def := t.U(lo, hi, "def")
	max := t.U(101, 5000, "max")
	type decl struct {
		what        string
		b           *param.Builder
		lo, hi, def float64
		unit        string
		steps       int32
		flags       uint32
	}
	const auto = param.CanAutomate
	all := []decl{
		{"gain", param.GainParameter(id, name), -80, 12, 0, "dB", 0, auto},
		{"mix", param.MixParameter(id, name), 0, 100, 100, "%", 0, auto},
		{"frequency", param.FrequencyParameter(id, name, lo, hi, def), lo, hi, def, "Hz", 0, auto},
		{"time", param.TimeParameter(id, name, lo, hi, def), lo, hi, def, "ms", 0, auto},
		{"ratio", param.RatioParameter(id, name, lo, hi, def), lo, hi, def, "", 0, auto},
		{"q", param.QParameter(id, name, lo, hi, def), lo, hi, def, "", 0, auto},
		{"pan", param.PanParameter(id, name), -100, 100, 0, "", 0, auto},
		{"phase", param.PhaseParameter(id, name), 0, 360, 0, "°", 0, auto},
		{"feedback", param.FeedbackParameter(id, name), 0, 100, 0, "%", 0, auto},
		{"resonance", param.ResonanceParameter(id, name), 0, 1, 0.707, "", 0, auto},
		{"drive", param.DriveParameter(id, name), 0, 100, 0, "%", 0, auto},
		{"meter", param.OutputLevelMeter(id, name), -60, 0, -60, "dB", 0, param.IsReadOnly},
		{"threshold", param.ThresholdParameter(id, name, lo, hi, def), lo, hi, def, "dB", 0, auto},
		{"attack", param.AttackParameter(id, name, max), 0.1, max, 10, "ms", 0, auto},
		{"release", param.ReleaseParameter(id, name, max), 1, max, 100, "ms", 0, auto},
		{"rate", param.RateParameter(id, name, lo, hi, def), lo, hi, def, "Hz", 0, auto},
		{"depth", param.DepthParameter(id, name), 0, 100, 50, "%", 0, auto},
		{"bypass", param.BypassParameter(id, name), 0, 1, 0, "", 1, auto},
	}
	d := all[t.Int(0, len(all)-1, "which")]
	p := d.b.Build()
	if p.ID != id || p.Name != name || p.ShortName != name || p.Min != d.lo || p.Max != d.hi || p.Unit != d.unit || p.StepCount != d.steps || p.Flags != d.flags {
		t.Fatalf("the %s parameter is %d %q %q [%v,%v] unit %q steps %d flags %x, declared %d %q [%v,%v] unit %q steps %d flags %x",
			d.what, p.ID, p.Name, p.ShortName, p.Min, p.Max, p.Unit, p.StepCount, p.Flags, id, name, d.lo, d.hi, d.unit, d.steps, d.flags)
	}
	for how, got := range map[string]float64{"default": p.Denormalize(p.DefaultValue), "value at first": p.GetPlainValue()} {
		if !(math.Abs(got-d.def) <= 1e-9*(math.Abs(d.lo)+math.Abs(d.hi))) {
			t.Fatalf("the %s parameter in [%v,%v] has the %s %v, declared %v", d.what, d.lo, d.hi, how, got, d.def)
		}
	}
	p.SetValue(t.U(0, 1, "v"))
	p.SetValue(p.DefaultValue)
	if got := p.GetPlainValue(); !(math.Abs(got-d.def) <= 1e-9*(math.Abs(d.lo)+math.Abs(d.hi))) {
		t.Fatalf("the %s parameter returns to %v, its default is %v", d.what, got, d.def)
	}
	t.Class(d.what)
	t.Nontrivial(d.lo == lo || d.hi == max)
	t.Desc("%s %d [%v,%v] %v", d.what, id, d.lo, d.hi, d.def)
}
