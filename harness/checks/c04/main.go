// C04: the text shown for a parameter denotes its value and parses back.
package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"pgregory.net/rapid"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C04",
		Subs: []Sub{
			{Name: "continuous", Quick: 230000, Thorough: 6000000, Fn: continuous,
				Rule: "every continuous parameter kind and formatter over random ranges; the shown text is read by an independent reader, parsed back, and re-shown; spelling variants of the text parse alike; non-trivial: a value away from the ends"},
			{Name: "discrete", Quick: 40000, Thorough: 2000000, Fn: discrete,
				Rule: "choice lists of 1-64 options with random values and aliases, filter and gate types, notes, on/off, bypass: each option reached through its normalized value and through the host's step grid shows its own name and parses back exactly; non-trivial: at least 3 options"},
			{Name: "typed", Quick: 60000, Thorough: 3000000, Fn: typed,
				Rule: "numbers typed with up to 8 decimals, in every unit, spelling and sign form of the kind, inside and beyond the range, mean exactly that number; texts without a digit or a known word, and numbers with something else in them where the whole text is read, are errors for every kind, discrete ones included; non-trivial: a number inside the range"},
			{Name: "hostile-text", Quick: 290000, Thorough: 4000000, Fn: hostile,
				Rule: "arbitrary and mutated texts given to every parser, arbitrary normalized values given to every formatter: no panic, and an accepted text gives a value in [0,1]; non-trivial: the text was accepted"},
		},
	})
}

type kind struct {
	name  string
	build func(t *T) *param.Parameter
	res   func(v float64) float64 // display resolution at plain value v
	read  func(s string) (float64, bool)
	alts  func(s string) []string
}

var num = regexp.MustCompile(`^(Q: )?(-?[0-9]+(?:\.[0-9]+)?)(?: ?(Hz|kHz|dB|%|ms|s|µs|:1|°|L|R|% L|% R))?$`)

// read is the independent reader: number and unit, in the base unit.
func read(s string) (float64, bool) {
	switch s {
	case "-∞ dB":
		return math.Inf(-1), true
	case "∞:1":
		return math.Inf(1), true
	case "C", "Center":
		return 0, true
	}
	m := num.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	v, err := strconv.ParseFloat(m[2], 64)
	if err != nil {
		return 0, false
	}
	if v < 0 && strings.ContainsAny(m[3], "LR") { // the side is the sign
		return 0, false
	}
	switch m[3] {
	case "kHz", "s":
		v *= 1000
	case "µs":
		v /= 1000
	case "L":
		v = -v / 100
	case "R":
		v /= 100
	case "% L":
		v = -v
	}
	return v, true
}

func konst(r float64) func(float64) float64 { return func(float64) float64 { return r } }

func raw(lo, hi float64, f func(float64) string, p func(string) (float64, error)) func(*T) *param.Parameter {
	return func(t *T) *param.Parameter {
		l, h := lo, hi
		if t.Bool("narrow") {
			l = t.U(lo, hi, "lo")
			h = l + (hi-l)*t.U(0.01, 1, "hi")
			if t.Int(0, 2, "short") == 0 { // ends anywhere, also close above its start
				l, h = lo, lo+(hi-lo)*t.LogU(1e-6, 1, "to")
			}
			if !(h > l) {
				l, h = lo, hi
			}
		}
		if t.Bool("later") {
			q := param.New(1, "p").Range(l, h).Build()
			q.SetFormatter(f, p)
			return q
		}
		return param.New(1, "p").Range(l, h).Formatter(f, p).Build()
	}
}

func three(t *T, lo, hi float64) (a, b, c float64) {
	a = t.U(lo, hi, "a")
	b = a + (hi-a)*t.U(0.01, 1, "b")
	if !(b > a) {
		a, b = lo, hi
	}
	return a, b, a + (b-a)*t.U(0, 1, "c")
}

func spaces(s string) []string { return []string{" " + s, s + "  ", "\t" + s + " "} }

func nospace(s string) []string { return append(spaces(s), strings.ReplaceAll(s, " ", "")) }

func hzAlts(s string) []string {
	return append(nospace(s), strings.NewReplacer("kHz", "khz", "Hz", "hz").Replace(s))
}

func dbAlts(s string) []string { return append(nospace(s), strings.Replace(s, "dB", "db", 1)) }

func hzRes(v float64) float64 {
	if v >= 1000 {
		return 5
	}
	return 0.05
}

func timeRes(v float64) float64 {
	if v >= 1000 {
		return 5
	}
	return 0.05
}

func pct(b func(uint32, string) *param.Builder) func(*T) *param.Parameter {
	return func(*T) *param.Parameter { return b(1, "p").Build() }
}

var kinds = []kind{
	{"frequency", raw(0, 24000, param.FrequencyFormatter, param.FrequencyParser), hzRes, read, hzAlts},
	{"decibel", raw(-96, 24, param.DecibelFormatter, param.DecibelParser), konst(0.05), read, dbAlts},
	{"percent", raw(0, 200, param.PercentFormatter, param.PercentParser), konst(0.5), read, spaces},
	{"time", raw(0, 400000, param.TimeFormatter, param.TimeParser), func(v float64) float64 {
		if v < 1 {
			return 5e-6
		}
		return timeRes(v)
	}, read, nospace},
	{"ratio", raw(1, 100, param.RatioFormatter, param.RatioParser), konst(0.05), read, spaces},
	{"pan", raw(-1, 1, param.PanFormatter, param.PanParser), func(v float64) float64 {
		if math.Abs(v) < 0.01 {
			return 0.01
		}
		return 0.005
	}, read, func(s string) []string { return append(spaces(s), strings.ToLower(s)) }},
	{"gain parameter", pct(param.GainParameter), konst(0.05), read, dbAlts},
	{"mix parameter", pct(param.MixParameter), konst(0.5), read, spaces},
	{"frequency parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, 10, 22000)
		return param.FrequencyParameter(1, "p", a, b, c).Build()
	}, hzRes, read, hzAlts},
	{"time parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, 0, Pick(t, "longest", 20000.0, 20000, 1e6))
		return param.TimeParameter(1, "p", a, b, c).Build()
	}, timeRes, read, nospace},
	{"ratio parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, 1, 100)
		return param.RatioParameter(1, "p", a, b, c).Build()
	}, konst(0.05), read, spaces},
	{"Q parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, 0.05, 40)
		return param.QParameter(1, "p", a, b, c).Build()
	}, konst(0.005), read, spaces},
	{"pan parameter", pct(param.PanParameter), konst(0.5), read, func(s string) []string {
		return append(spaces(s), strings.ToLower(s), strings.Replace(s, " L", " left", 1), strings.Replace(s, " R", " right", 1))
	}},
	{"phase parameter", pct(param.PhaseParameter), konst(0.05), read, func(s string) []string {
		return []string{strings.Replace(s, "°", " deg", 1), strings.Replace(s, "°", "degrees", 1), strings.TrimSuffix(s, "°")}
	}},
	{"feedback parameter", pct(param.FeedbackParameter), konst(0.5), read, spaces},
	{"resonance parameter", pct(param.ResonanceParameter), konst(0.0005), read, nil},
	{"drive parameter", pct(param.DriveParameter), konst(0.5), read, spaces},
	{"threshold parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, -96, 12)
		return param.ThresholdParameter(1, "p", a, b, c).Build()
	}, konst(0.05), read, dbAlts},
	{"attack parameter", func(t *T) *param.Parameter { return param.AttackParameter(1, "p", t.U(0.2, 3000, "max")).Build() }, timeRes, read, nospace},
	{"release parameter", func(t *T) *param.Parameter { return param.ReleaseParameter(1, "p", t.U(1.5, 10000, "max")).Build() }, timeRes, read, nospace},
	{"rate parameter", func(t *T) *param.Parameter {
		a, b, c := three(t, 0.01, 50)
		return param.RateParameter(1, "p", a, b, c).Build()
	}, func(v float64) float64 {
		if v < 1 {
			return 0.0005
		}
		return 0.005
	}, read, hzAlts},
	{"depth parameter", pct(param.DepthParameter), konst(0.5), read, spaces},
	{"compressor controls", func(t *T) *param.Parameter {
		r := param.NewAutoRegistry()
		if err := r.RegisterCompressorControls(); err != nil {
			t.Fatalf("compressor controls: %v", err)
		}
		return r.GetByName(Pick(t, "which", "Threshold", "Ratio", "Attack", "Release", "Knee"))
	}, timeRes, read, nil},
	{"default text", func(t *T) *param.Parameter {
		a, b, _ := three(t, -1000, 1000)
		return param.New(1, "p").Range(a, b).Build()
	}, konst(0.005), read, nil},
}

func continuous(t *T) {
	k := kinds[t.Int(0, len(kinds)-1, "kind")]
	p := k.build(t)
	n := t.U(0, 1, "n")
	if t.Int(0, 2, "magnitude") == 0 { // small values of a long range too
		w := t.LogU(1e-4, 1e5, "v") * Pick(t, "sign", 1.0, 1, -1)
		if w > p.Min && w < p.Max {
			n = p.Normalize(w)
		}
	}
	v := p.Denormalize(n)
	text := p.FormatValue(n)
	inf := strings.Contains(text, "∞")
	tol := k.res(v)*(1+1e-9) + 1e-9*math.Max(math.Abs(p.Min), math.Abs(p.Max))
	got, ok := k.read(text)
	if !ok {
		t.Fatalf("%s: value %v is shown as %q, which does not read as a number in a known unit", k.name, v, text)
	}
	if math.IsInf(got, -1) && v > -60+1e-9 || math.IsInf(got, 1) && v < 100-1e-9 {
		t.Fatalf("%s: value %v is shown as %q", k.name, v, text)
	}
	if !inf && !(math.Abs(got-v) <= tol) {
		t.Fatalf("%s: value %v is shown as %q (reads as %v, resolution %v)", k.name, v, text, got, k.res(v))
	}
	m, err := p.ParseValue(text)
	if err != nil {
		t.Fatalf("%s: the shown text %q does not parse: %v", k.name, text, err)
	}
	if !(m >= 0 && m <= 1) {
		t.Fatalf("%s: %q parses to %v, outside [0,1]", k.name, text, m)
	}
	text2 := p.FormatValue(m)
	w := p.Denormalize(m)
	if !(math.Abs(w-v) <= tol) && !(inf && text2 == text) {
		t.Fatalf("%s: value %v is shown as %q, which parses to %v (resolution %v)", k.name, v, text, w, k.res(v))
	}
	m2, err := p.ParseValue(text2)
	if err != nil {
		t.Fatalf("%s: the shown text %q does not parse: %v", k.name, text2, err)
	}
	if text3 := p.FormatValue(m2); text3 != text2 {
		t.Fatalf("%s: the text is not stable: %q, %q, %q", k.name, text, text2, text3)
	}
	if k.alts != nil {
		for _, s := range k.alts(text) {
			a, err := p.ParseValue(s)
			if err != nil || a != m {
				t.Fatalf("%s: %q parses to %v, its variant %q to %v (%v)", k.name, text, m, s, a, err)
			}
		}
	}
	t.Class(k.name)
	t.Desc("%s [%v,%v] %v %q", k.name, p.Min, p.Max, v, text)
	t.Nontrivial(n > 0 && n < 1)
}

type option struct {
	name    string
	value   float64
	aliases []string
}

func discrete(t *T) {
	var p *param.Parameter
	var opts []option
	uniform := true
	steps := -1
	what := t.Int(0, 8, "what")
	switch what {
	case 0, 1:
		n := t.Int(1, 64, "n")
		v := Pick(t, "first", 0.0, 0, 0, 1, -3, 10)
		gap := Pick(t, "gap", 1.0, 1, 1, 0.1, 7, 12.5)
		even := t.Int(0, 3, "even") > 0
		var co []param.ChoiceOption
		naming := t.Int(0, 2, "naming")
		for i := 0; i < n; i++ {
			o := option{name: fmt.Sprintf("Opt %d", i), value: v}
			switch naming {
			case 1: // longer names first
				o.name = fmt.Sprintf("Opt %d", n-i)
			case 2:
				o.name = "Low" + strings.Repeat(" Shelf", (i+n/2)%n)
			}
			if t.Bool("alias") {
				o.aliases = []string{fmt.Sprintf("al%d", i), fmt.Sprintf("No.%d", i)}
			}
			opts = append(opts, o)
			co = append(co, param.ChoiceOption{Value: o.value, Name: o.name, Aliases: o.aliases})
			v = opts[0].value + float64(i+1)*gap
			if !even {
				v = opts[i].value + gap*t.U(0.1, 2, "g")
				uniform = false
			}
		}
		b := param.Choice(7, "c", co)
		p = b.Build()
		steps = int(p.StepCount)
		if n > 1 && steps != n-1 {
			t.Fatalf("a choice of %d options announces %d steps; hosts expect %d", n, steps, n-1)
		}
	case 2:
		p = param.New(1, "f").Range(0, 7).Steps(7).Formatter(param.FilterTypeFormatter, param.FilterTypeParser).Build()
		al := [][]string{{"lpf", "LP", "low pass"}, {"hpf", "high pass", "HP"}, {"bp", "BPF", "band pass"}, {"band reject", "br", "bs", "Band Stop"}, {"apf", "ap", "all pass"}, {"peaking", "peak", "bell", "Parametric"}, {"lowshelf", "LS", "bass"}, {"highshelf", "hs", "treble"}}
		for i, s := range []string{"Lowpass", "Highpass", "Bandpass", "Notch", "Allpass", "Peaking EQ", "Low Shelf", "High Shelf"} {
			opts = append(opts, option{s, float64(i), al[i]})
		}
		steps = 7
	case 3:
		p = param.New(1, "g").Range(0, 3).Steps(3).Formatter(param.GateTypeFormatter, param.GateTypeParser).Build()
		al := [][]string{{"hard", "gate"}, {"soft", "SOFT gate"}, {"expand", "expansion"}, {"duck", "ducking"}}
		for i, s := range []string{"Hard Gate", "Soft Gate", "Expander", "Ducker"} {
			opts = append(opts, option{s, float64(i), al[i]})
		}
		steps = 3
	case 4, 5:
		lo := t.Int(0, 126, "lo")
		hi := t.Int(lo+1, 127, "hi")
		p = param.New(1, "n").Range(float64(lo), float64(hi)).Steps(int32(hi-lo)).Formatter(param.NoteFormatter, param.NoteParser).Build()
		sharp := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
		flat := []string{"B#", "Db", "D", "Eb", "Fb", "E#", "Gb", "G", "Ab", "A", "Bb", "Cb"}
		for k := lo; k <= hi; k++ {
			oct := k/12 - 1
			fo := oct
			if k%12 == 0 { // B# of the octave below
				fo--
			}
			if k%12 == 11 {
				fo++
			}
			opts = append(opts, option{fmt.Sprintf("%s%d", sharp[k%12], oct), float64(k), []string{fmt.Sprintf("%s%d", flat[k%12], fo), strings.ToLower(fmt.Sprintf("%s%d", sharp[k%12], oct))}})
			// F flat is E, E sharp is F
			if k%12 == 4 || k%12 == 5 {
				opts[len(opts)-1].aliases[0] = fmt.Sprintf("%s%d", map[int]string{4: "Fb", 5: "E#"}[k%12], oct)
			}
		}
		steps = hi - lo
	case 6:
		p = param.New(1, "o").Toggle().Formatter(param.OnOffFormatter, param.OnOffParser).Build()
		opts = []option{{"Off", 0, []string{"off", "no", "FALSE", "0"}}, {"On", 1, []string{"on", "Yes", "true", "1"}}}
		steps = 1
	case 7:
		p = param.BypassParameter(1, "b").Build()
		opts = []option{{"Active", 0, nil}, {"Bypassed", 1, []string{"bypassed"}}}
		steps = int(p.StepCount)
		if steps != 1 {
			t.Fatalf("a bypass switch announces %d steps", steps)
		}
	}
	if what == 8 { // no formatter: whole numbers are shown as such
		lo := t.Int(-200, 200, "lo")
		hi := lo + t.Int(1, 300, "span")
		p = param.New(1, "i").Range(float64(lo), float64(hi)).Steps(int32(hi - lo)).Build()
		steps = hi - lo
		for k := lo; k <= hi; k++ {
			opts = append(opts, option{strconv.Itoa(k), float64(k), []string{fmt.Sprintf("%d.0", k)}})
		}
	}
	for i, o := range opts {
		n := p.Normalize(o.value)
		ns := []float64{n}
		if uniform && steps > 0 {
			ns = append(ns, float64(i)/float64(steps))
		}
		p.SetPlainValue(o.value)
		ns = append(ns, p.GetValue())
		for _, n := range ns {
			if s := p.FormatValue(n); s != o.name {
				t.Fatalf("option %d of %d (value %v, normalized %v) is shown as %q, its name is %q", i, len(opts), o.value, n, s, o.name)
			}
		}
		for _, s := range append([]string{o.name, strings.ToUpper(o.name), strings.ToLower(o.name)}, o.aliases...) {
			m, err := p.ParseValue(s)
			if err != nil {
				t.Fatalf("option text %q does not parse: %v", s, err)
			}
			if w := p.Denormalize(m); !(math.Abs(w-o.value) <= 1e-9*(1+math.Abs(o.value))) {
				t.Fatalf("option text %q parses to %v, it is option value %v", s, w, o.value)
			}
			if back := p.FormatValue(m); back != o.name {
				t.Fatalf("option text %q parses to %v, shown as %q instead of %q", s, m, back, o.name)
			}
		}
	}
	t.Class([]string{"choice", "choice", "filter type", "gate type", "note", "note", "on/off", "bypass", "whole number"}[what])
	t.Desc("%d options from %q=%v to %q=%v", len(opts), opts[0].name, opts[0].value, opts[len(opts)-1].name, opts[len(opts)-1].value)
	t.Nontrivial(len(opts) >= 3)
}

// units lists, per way of reading a kind, what may follow a typed number and
// the factor to the plain value.
type unit struct {
	suffix string
	scale  float64
}

var units = map[string][]unit{
	"hz":      {{"", 1}, {" Hz", 1}, {"Hz", 1}, {" hz", 1}, {" kHz", 1000}, {"kHz", 1000}, {" khz", 1000}},
	"db":      {{"", 1}, {" dB", 1}, {"dB", 1}, {" db", 1}},
	"pct":     {{"", 1}, {"%", 1}},
	"time":    {{"", 1}, {" ms", 1}, {"ms", 1}, {" s", 1000}, {"s", 1000}},
	"ratio":   {{"", 1}, {":1", 1}},
	"pan":     {{"", 1}, {"L", -0.01}, {"R", 0.01}, {" l", -0.01}, {"r", 0.01}},
	"panpct":  {{"", 1}, {"%", 1}, {"% L", -1}, {"% R", 1}, {"L", -1}, {" right", 1}, {"% left", -1}},
	"phase":   {{"", 1}, {"°", 1}, {" deg", 1}, {" degrees", 1}},
	"number":  {{"", 1}},
	"quality": {{"", 1}},
}

var unitOf = map[string]string{
	"frequency": "hz", "frequency parameter": "hz", "rate parameter": "hz",
	"decibel": "db", "gain parameter": "db", "threshold parameter": "db",
	"percent": "pct", "mix parameter": "pct", "feedback parameter": "pct", "drive parameter": "pct", "depth parameter": "pct",
	"time": "time", "time parameter": "time", "attack parameter": "time", "release parameter": "time",
	"ratio": "ratio", "ratio parameter": "ratio",
	"pan": "pan", "pan parameter": "panpct", "phase parameter": "phase",
	"Q parameter": "quality", "resonance parameter": "number", "default text": "number",
}

// strict names the kinds whose whole text has to make sense; the others read
// the number a text starts with.
var strict = map[string]bool{
	"frequency": true, "decibel": true, "percent": true, "time": true, "ratio": true, "pan": true,
	"gain parameter": true, "mix parameter": true, "frequency parameter": true, "feedback parameter": true,
	"resonance parameter": true, "drive parameter": true, "threshold parameter": true, "rate parameter": true,
	"depth parameter": true, "default text": true,
}

func typed(t *T) {
	k := kinds[t.Int(0, len(kinds)-1, "kind")]
	u, ok := unitOf[k.name]
	if !ok {
		t.Skip("no unit")
	}
	p := k.build(t)
	if t.Int(0, 9, "nonsense") == 0 {
		if t.Bool("discrete") {
			p = discreteKind(t, t.Int(1, 6, "which"))
		}
		s := rapid.StringOf(rapid.SampledFrom([]rune("jkqvwxyJQ%:° .,;!?#/+-µé"))).Draw(t.T, "words")
		m, err := p.ParseValue(s)
		if err == nil {
			t.Fatalf("%s: %q means nothing and parses to %v", k.name, s, m)
		}
		t.Desc("%q", s)
		t.Class("nonsense")
		return
	}
	un := units[u]
	w := un[t.Int(0, len(un)-1, "unit")]
	if u == "time" && k.name == "time" && t.Int(0, 2, "micro") == 0 {
		w = Pick(t, "us", unit{" µs", 0.001}, unit{"us", 0.001}, unit{"µs", 0.001})
	}
	lo, hi := p.Min/w.scale, p.Max/w.scale
	if lo > hi {
		lo, hi = hi, lo
	}
	x := lo + (hi-lo)*t.U(0, 1, "x")
	if t.Int(0, 7, "beyond") == 0 {
		x = lo + (hi-lo)*t.U(-2, 3, "far")
	}
	if strings.HasSuffix(strings.ToLower(strings.TrimSuffix(w.suffix, "eft")), "l") && u != "db" || strings.HasSuffix(strings.ToLower(w.suffix), "r") || strings.HasSuffix(w.suffix, "right") {
		x = math.Abs(x)
	}
	s := strconv.FormatFloat(x, 'f', t.Int(0, 8, "decimals"), 64)
	x, _ = strconv.ParseFloat(s, 64)
	if t.Int(0, 5, "plus") == 0 && x > 0 {
		s = "+" + s
	}
	s += w.suffix
	if u == "quality" && t.Bool("prefix") {
		s = Pick(t, "q", "Q: ", "q:", "q: ") + s
	}
	if w.suffix == "" && x*w.scale != 0 && u == "number" && strings.TrimSpace(s) != s {
		t.Fatalf("generator: %q", s)
	}
	if u != "phase" && u != "number" {
		s = Pick(t, "pad", "", "", " ") + s + Pick(t, "pad2", "", "", " ")
	}
	if strict[k.name] && t.Int(0, 9, "garbled") == 0 {
		g := strconv.FormatFloat(x, 'f', 2, 64) + Pick(t, "junk", " x", ":2", ":12", ",5", "..", " 3", "e", "--", "/1", "\"") + w.suffix
		if m, err := p.ParseValue(g); err == nil {
			t.Fatalf("%s: %q is no number in a unit of this kind and parses to %v", k.name, g, m)
		}
	}
	m, err := p.ParseValue(s)
	if err != nil {
		t.Fatalf("%s: the typed text %q does not parse: %v", k.name, s, err)
	}
	want := math.Min(math.Max((x*w.scale-p.Min)/(p.Max-p.Min), 0), 1)
	if !(math.Abs(m-want) <= 1e-9*(1+math.Max(math.Abs(p.Min), math.Abs(p.Max))/(p.Max-p.Min))) {
		t.Fatalf("%s [%v,%v]: %q is %v, parsed to %v (normalized %v, expected %v)", k.name, p.Min, p.Max, s, x*w.scale, p.Denormalize(m), m, want)
	}
	t.Class(u)
	t.Desc("%s %q %v", k.name, s, m)
	t.Nontrivial(want > 0 && want < 1)
}

func discreteKind(t *T, k int) *param.Parameter {
	switch k {
	case 1:
		return param.New(1, "n").Range(0, 127).Formatter(param.NoteFormatter, param.NoteParser).Build()
	case 2:
		return param.New(1, "n").Range(0, 7).Formatter(param.FilterTypeFormatter, param.FilterTypeParser).Build()
	case 3:
		return param.New(1, "n").Toggle().Formatter(param.OnOffFormatter, param.OnOffParser).Build()
	case 4:
		return param.New(1, "n").Range(0, 3).Formatter(param.GateTypeFormatter, param.GateTypeParser).Build()
	case 5:
		return param.New(1, "n").Range(-3, 9).Steps(12).Build()
	}
	return param.BypassParameter(1, "b").Build()
}

func hostile(t *T) {
	k := t.Int(0, len(kinds)+5, "kind")
	var p *param.Parameter
	switch {
	case k < len(kinds):
		p = kinds[k].build(t)
	default:
		p = discreteKind(t, k-len(kinds)+1)
	}
	n := Pick(t, "n", 0.0, 0.5, 1, -1, 2, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, 0.123)
	var s string
	if e := Catch(func() { s = p.FormatValue(n) }); e != "" {
		t.Fatalf("formatting normalized %v panics: %s", n, e)
	}
	switch t.Int(0, 3, "how") {
	case 0:
		s = rapid.String().Draw(t.T, "s")
	case 1:
		s = rapid.StringOfN(rapid.SampledFrom([]rune("0123456789.-+eE∞ dBHzkmsµuL R%:1°Q#bCcnifNaN")), 0, 12, -1).Draw(t.T, "s")
	case 2:
		i := 0
		if len(s) > 0 {
			i = t.Int(0, len(s)-1, "i")
		}
		s = s[:i] + rapid.StringN(0, 2, -1).Draw(t.T, "ins") + s[i:]
	}
	var m float64
	var err error
	if e := Catch(func() { m, err = p.ParseValue(s) }); e != "" {
		t.Fatalf("parsing %q panics: %s", s, e)
	}
	if err == nil && !(m >= 0 && m <= 1) {
		t.Fatalf("%q parses to %v, outside [0,1]", s, m)
	}
	t.Desc("%q -> %v %v", s, m, err)
	t.Nontrivial(err == nil)
}
