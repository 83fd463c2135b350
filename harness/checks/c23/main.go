// C23: gain, pan, mix and block operations.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C23",
		Subs: []Sub{
			{Name: "blocks", Quick: 88000, Thorough: 440000, Fn: blocks,
				Rule: "every block operation on buffers of unequal lengths (empty included), in place or not, against its formula per sample in double precision, with guard samples behind every buffer; non-trivial: lengths differ"},
			{Name: "decibel", Quick: 160000, Thorough: 800000, Fn: decibel,
				Rule: "decibel conversion over the whole float range and clipping at all thresholds; non-trivial: a finite level or clipped input"},
			{Name: "panlaw", Quick: 100000, Thorough: 500000, Fn: panlaw,
				Rule: "all laws at all positions against closed forms, mirrored positions, small steps of position (continuity), stereo panning, balance and width; non-trivial: position off center"},
			{Name: "autopan", Quick: 38000, Thorough: 190000, Fn: autopan,
				Rule: "automatic panning in any division into blocks with rate and depth changes and resets against a sine of the accumulated phase; non-trivial: depth not zero and 2 blocks"},
			{Name: "fade", Quick: 80000, Thorough: 400000, Fn: fade,
				Rule: "fades between any two gains over any length; crossfades and dry/wet mixes at all positions; non-trivial: length above 1"},
		},
	})
}

const guard = 77.25

// buf returns n samples followed by guard samples.
func buf(x []float32) []float32 {
	b := append(Clone(x), guard, guard, guard)
	return b[:len(x)]
}

func intact(t *T, what string, bs ...[]float32) {
	for i, b := range bs {
		g := b[:len(b)+3]
		for _, v := range g[len(b):] {
			if v != guard {
				t.Fatalf("%s wrote beyond buffer %d", what, i)
			}
		}
	}
}

func minLen(bs ...[]float32) int {
	n := len(bs[0])
	for _, b := range bs {
		if len(b) < n {
			n = len(b)
		}
	}
	return n
}

func blocks(t *T) {
	nb := t.Int(1, 4, "buffers")
	var xs [][]float32
	diff := false
	for i := 0; i < nb; i++ {
		n := t.Size(0, 24, 20000, "len")
		if i > 0 && n != len(xs[0]) {
			diff = true
		}
		xs = append(xs, t.Signal(n, Pick(t, "amp", 1.0, 1, 4, 0.01), "x"))
	}
	t.Nontrivial(diff)
	dl := t.Size(0, 24, 20000, "dst")
	dst := t.Signal(dl, 1, "dst")
	g := float32(t.U(-2, 2, "g"))
	a, b := xs[0], xs[nb-1]
	inplace := t.Bool("inplace")
	d := buf(dst)
	if inplace {
		d = buf(a)
		dst = a
	}
	var want func(i int) float64 // value of sample i, within the first m samples
	m := 0
	var ops []func() string
	f := func(x []float32, i int) float64 { return float64(x[i]) }
	G := float64(g)
	srcA := a
	if inplace {
		srcA = d
	}
	ops = append(ops,
		func() string {
			dsp.Clear(d)
			want, m = func(i int) float64 { return 0 }, len(d)
			return "clearing"
		},
		func() string {
			dsp.Copy(d, b)
			want, m = func(i int) float64 { return f(b, i) }, minLen(d, b)
			return "copying"
		},
		func() string {
			dsp.Add(d, b)
			want, m = func(i int) float64 { return f(dst, i) + f(b, i) }, minLen(d, b)
			return "adding"
		},
		func() string {
			dsp.AddScaled(d, b, g)
			want, m = func(i int) float64 { return f(dst, i) + f(b, i)*G }, minLen(d, b)
			return "adding a scaled buffer"
		},
		func() string {
			dsp.Scale(d, g)
			want, m = func(i int) float64 { return f(dst, i) * G }, len(d)
			return "scaling"
		},
		func() string {
			dsp.Mix(d, srcA, b, g)
			want, m = func(i int) float64 { return f(a, i)*(1-G) + f(b, i)*G }, minLen(d, a, b)
			return "mixing"
		},
		func() string {
			lim := float32(math.Abs(G))
			dsp.Clip(d, lim)
			want, m = func(i int) float64 { return math.Max(-float64(lim), math.Min(float64(lim), f(dst, i))) }, len(d)
			return "clipping"
		},
		func() string {
			th := float32(math.Abs(G) / 2)
			T := float64(th)
			dsp.SoftClip(d, th)
			want, m = func(i int) float64 {
				x := f(dst, i)
				if math.Abs(x) <= T {
					return x
				}
				return math.Copysign(T+(1-T)*math.Tanh(math.Abs(x)-T), x)
			}, len(d)
			return "soft clipping"
		},
		func() string {
			gain.ApplyBuffer(d, g)
			want, m = func(i int) float64 { return f(dst, i) * G }, len(d)
			return "applying a gain"
		},
		func() string {
			gain.ApplyDbBuffer(d, g*20)
			want, m = func(i int) float64 { return f(dst, i) * math.Pow(10, G) }, len(d)
			return "applying a decibel gain"
		},
		func() string {
			gain.ApplyBufferTo(b, g, d)
			want, m = func(i int) float64 { return f(b, i) * G }, minLen(d, b)
			return "applying a gain into a buffer"
		},
		func() string {
			mix.DryWetBuffer(d, b, g)
			want, m = func(i int) float64 { return f(dst, i)*(1-G) + f(b, i)*G }, minLen(d, b)
			return "dry/wet mixing"
		},
		func() string {
			mix.DryWetBufferTo(srcA, b, g, d)
			want, m = func(i int) float64 { return f(a, i)*(1-G) + f(b, i)*G }, minLen(d, a, b)
			return "dry/wet mixing into a buffer"
		},
		func() string {
			p := float32(math.Abs(G) / 2)
			mix.CrossfadeBuffer(srcA, b, p, true, d)
			want, m = func(i int) float64 {
				return f(a, i)*math.Cos(float64(p)*math.Pi/2) + f(b, i)*math.Sin(float64(p)*math.Pi/2)
			}, minLen(d, a, b)
			return "equal-power crossfading"
		},
		func() string {
			p := float32(math.Abs(G) / 2)
			mix.CrossfadeBuffer(srcA, b, p, false, d)
			want, m = func(i int) float64 { return f(a, i)*(1-float64(p)) + f(b, i)*float64(p) }, minLen(d, a, b)
			return "linear crossfading"
		},
		func() string {
			p := g / 2
			q := (float64(p) + 1) / 2
			mix.Blend(srcA, b, p, d)
			want, m = func(i int) float64 {
				return f(a, i)*math.Cos(q*math.Pi/2) + f(b, i)*math.Sin(q*math.Pi/2)
			}, minLen(d, a, b)
			return "blending"
		},
		func() string {
			d = buf(dst)
			mix.Sum(xs, d)
			want, m = func(i int) (s float64) {
				for _, x := range xs {
					if i < len(x) {
						s += f(x, i)
					}
				}
				return
			}, len(d)
			return "summing"
		},
		func() string {
			d = buf(dst)
			gs := make([]float32, t.Int(0, 4, "gains"))
			for i := range gs {
				gs[i] = float32(t.U(-2, 2, "gain"))
			}
			mix.SumWeighted(xs, gs, d)
			want, m = func(i int) (s float64) {
				for j, x := range xs {
					if i < len(x) {
						w := 1.0
						if j < len(gs) {
							w = float64(gs[j])
						}
						s += f(x, i) * w
					}
				}
				return
			}, len(d)
			return "weighted summing"
		},
		func() string {
			mix.Sum(nil, d)
			mix.SumWeighted(nil, nil, d)
			return "summing no buffers"
		},
	)
	orig := make([][]float32, len(xs))
	for i := range xs {
		orig[i] = Clone(xs[i])
	}
	k := t.Int(0, len(ops)-1, "op")
	var name string
	if p := Catch(func() { name = ops[k]() }); p != "" {
		t.Fatalf("operation %d on buffers of %d, %d and %d samples panics: %s", k, len(d), len(a), len(b), p)
	}
	t.Class(name)
	t.Desc(" op=%s g=%v", name, g)
	for i := range d {
		w := float64(dst[i])
		if i < m {
			w = want(i)
		}
		if !Close(float64(d[i]), w, 1e-5, 1e-5) {
			t.Fatalf("%s (factor %v): sample %d is %v, expected %v", name, g, i, d[i], w)
		}
	}
	intact(t, name, d)
	for i := range xs {
		if _, same := SameBits(xs[i], orig[i]); !same {
			t.Fatalf("%s changed a source buffer", name)
		}
	}
	// Onto the second buffer.
	c, e, p := buf(b), buf(b), float32(math.Abs(G)/2)
	onto := func(op func(d, s []float32)) {
		op(c, c)
		op(e, Clone(b))
	}
	switch t.Int(0, 5, "onto") {
	case 0:
		onto(func(d, s []float32) { dsp.Mix(d, a, s, g) })
	case 1:
		onto(func(d, s []float32) { gain.ApplyBufferTo(s, g, d) })
	case 2:
		onto(func(d, s []float32) { mix.DryWetBufferTo(a, s, g, d) })
	case 3:
		onto(func(d, s []float32) { mix.CrossfadeBuffer(a, s, p, true, d) })
	case 4:
		onto(func(d, s []float32) { mix.CrossfadeBuffer(a, s, p, false, d) })
	case 5:
		onto(func(d, s []float32) { mix.Blend(a, s, g/2, d) })
	}
	for i := range c {
		if !Close(float64(c[i]), float64(e[i]), 1e-5, 1e-5) {
			t.Fatalf("onto its second buffer an operation gives %v at sample %d, into another %v", c[i], i, e[i])
		}
	}
	intact(t, "onto the second buffer", c, e)
	// Levels.
	pk, sq := 0.0, 0.0
	for i := range a {
		pk = math.Max(pk, math.Abs(f(a, i)))
		sq += f(a, i) * f(a, i)
	}
	if got := dsp.Peak(a); float64(got) != pk {
		t.Fatalf("the peak of %v is reported as %v", a, got)
	}
	if len(a) > 0 {
		sq = math.Sqrt(sq / float64(len(a)))
	}
	if got := dsp.RMS(a); !Close(float64(got), sq, 1e-30, 1e-5+1e-7*float64(len(a))) {
		t.Fatalf("the RMS level of %v is reported as %v, expected %v", a, got, sq)
	}
}

func decibel(t *T) {
	db := t.U(-260, 60, "db")
	switch t.Int(0, 5, "dbkind") {
	case 0:
		db = Pick(t, "dbedge", -200.0, math.Nextafter(-200, 0), -1e9, 0, 20, -199.5)
	}
	lin := math.Pow(10, db/20)
	t.Desc("db=%v", db)
	if got := gain.DbToLinear(db); db <= -200 {
		if got != 0 {
			t.Fatalf("%v dB is gain %v, expected silence", db, got)
		}
	} else {
		t.Nontrivial(true)
		if !Close(got, lin, 0, 1e-12) {
			t.Fatalf("%v dB is gain %v, expected %v", db, got, lin)
		}
		if back := gain.LinearToDb(got); !Close(back, db, 1e-9, 0) {
			t.Fatalf("%v dB converts to %v and back to %v", db, got, back)
		}
	}
	d32 := float32(db)
	l32 := gain.DbToLinear32(d32)
	if d32 <= -200 {
		if l32 != 0 {
			t.Fatalf("%v dB is gain %v, expected silence", d32, l32)
		}
	} else {
		if !Close(float64(l32), math.Pow(10, float64(d32)/20), 1e-12, 1e-6) {
			t.Fatalf("%v dB is gain %v, expected %v", d32, l32, math.Pow(10, float64(d32)/20))
		}
		if back := gain.LinearToDb32(l32); !Close(float64(back), float64(d32), 1e-4, 0) {
			t.Fatalf("%v dB converts to %v and back to %v", d32, l32, back)
		}
	}
	if x := -t.LogU(1e-30, 10, "neg"); gain.LinearToDb(x) != gain.MinDB || gain.LinearToDb(0) != gain.MinDB || gain.LinearToDb32(float32(x)) != gain.MinDB || gain.LinearToDb32(0) != gain.MinDB {
		t.Fatalf("a gain of %v or 0 is not the minimum level", x)
	}
	s, g := float32(t.U(-4, 4, "s")), float32(t.U(-4, 4, "gain"))
	if got := gain.Apply(s, g); !Close(float64(got), float64(s)*float64(g), 1e-6, 1e-6) {
		t.Fatalf("%v at gain %v is %v", s, g, got)
	}
	if got := gain.ApplyDb(s, d32); !Close(float64(got), float64(s)*float64(l32), 1e-12, 1e-6) {
		t.Fatalf("%v at %v dB is %v", s, d32, got)
	}
	// Clipping.
	th := float32(t.LogU(0.001, 2, "threshold"))
	if got, want := float64(gain.HardClip(s, th)), math.Max(-float64(th), math.Min(float64(th), float64(s))); got != want {
		t.Fatalf("%v clipped at %v is %v", s, th, got)
	}
	got := gain.SoftClip(s, th)
	if float32(math.Abs(float64(s))) <= th {
		if got != s {
			t.Fatalf("%v is below the threshold %v but is clipped softly to %v", s, th, got)
		}
	} else {
		u := math.Abs(float64(s)) / float64(th)
		want := 1.0
		if u < 3 {
			want = u * (27 + u*u) / (27 + 9*u*u)
		}
		want = math.Copysign(want*float64(th), float64(s))
		if !Close(float64(got), want, 1e-7, 1e-5) {
			t.Fatalf("%v clipped softly at %v is %v, expected %v", s, th, got, want)
		}
	}
	b := []float32{s, -s, 0}
	c := Clone(b)
	gain.SoftClipBuffer(b, th)
	gain.HardClipBuffer(c, th)
	for i, v := range []float32{s, -s, 0} {
		if b[i] != gain.SoftClip(v, th) || c[i] != gain.HardClip(v, th) {
			t.Fatalf("clipping a buffer at %v turns %v into %v and %v", th, v, b[i], c[i])
		}
	}
}

var laws = []pan.Law{pan.Linear, pan.ConstantPower, pan.Balanced}

func law(l pan.Law, p float64) (float64, float64) {
	if l == pan.Linear {
		return (1 - p) / 2, (1 + p) / 2
	}
	a := (p + 1) * math.Pi / 4
	x, y := math.Cos(a), math.Sin(a)
	if l == pan.Balanced {
		c := 1 - (1-p*p)*0.159
		x, y = x*c, y*c
	}
	return x, y
}

func panlaw(t *T) {
	p := float32(t.U(-1, 1, "p"))
	if t.Int(0, 7, "small") == 0 {
		p = float32(t.U(-1e-3, 1e-3, "psmall"))
	}
	l := Pick(t, "law", laws...)
	P := float64(p)
	t.Nontrivial(p != 0)
	t.Desc("p=%v law=%v", p, l)
	x, y := pan.MonoToStereo(p, l)
	wx, wy := law(l, P)
	if !Close(float64(x), wx, 2e-6, 0) || !Close(float64(y), wy, 2e-6, 0) {
		t.Fatalf("law %v at %v gives gains %v and %v, expected %v and %v", l, p, x, y, wx, wy)
	}
	if mx, my := pan.MonoToStereo(-p, l); !Close(float64(mx), float64(y), 2e-6, 0) || !Close(float64(my), float64(x), 2e-6, 0) {
		t.Fatalf("law %v at %v and %v is not mirrored", l, p, -p)
	}
	if l == pan.ConstantPower && !Close(float64(x)*float64(x)+float64(y)*float64(y), 1, 1e-5, 0) {
		t.Fatalf("constant power at %v has power %v", p, float64(x)*float64(x)+float64(y)*float64(y))
	}
	if l == pan.Balanced {
		cx, cy := pan.MonoToStereo(0, l)
		if db := DB(float64(cx)); !(math.Abs(db+4.5) <= 0.05) || cx != cy {
			t.Fatalf("the balanced law is %v dB at the center, documented as -4.5 dB", db)
		}
	}
	// Buffers of unequal length.
	a := t.Signal(t.Int(0, 12, "na"), 1, "a")
	b := t.Signal(t.Int(0, 12, "nb"), 1, "b")
	lo, ro := buf(make([]float32, t.Int(0, 12, "nl"))), buf(make([]float32, t.Int(0, 12, "nr")))
	w := float32(t.U(0, 2, "width"))
	W := float64(w)
	rel := func(g, c float64) float64 { return g / c }
	cx, cy := law(l, 0)
	for k := 0; k < 4; k++ {
		for i := range lo {
			lo[i] = 9
		}
		for i := range ro {
			ro[i] = 9
		}
		n := minLen(a, b, lo, ro)
		var name string
		var want func(i int) (float64, float64)
		msg := Catch(func() {
			switch k {
			case 0:
				name, n = "panning", minLen(a, lo, ro)
				pan.Process(a, p, l, lo, ro)
				want = func(i int) (float64, float64) { return float64(a[i]) * wx, float64(a[i]) * wy }
			case 1:
				name = "stereo panning"
				pan.ProcessStereo(a, b, p, l, lo, ro)
				gl, gr := 1.0, 1.0
				if P < 0 {
					gr = rel(wy, cy)
				}
				if P > 0 {
					gl = rel(wx, cx)
				}
				want = func(i int) (float64, float64) { return float64(a[i]) * gl, float64(b[i]) * gr }
			case 2:
				name = "width"
				pan.Width(a, b, w, lo, ro)
				want = func(i int) (float64, float64) {
					m, s := (float64(a[i])+float64(b[i]))/2, (float64(a[i])-float64(b[i]))/2*W
					return m + s, m - s
				}
			case 3:
				name = "balance"
				pan.Balance(a, b, p, lo, ro)
				want = func(i int) (float64, float64) {
					return float64(a[i]) * math.Min(1, 1-P), float64(b[i]) * math.Min(1, 1+P)
				}
			}
		})
		if msg != "" {
			t.Fatalf("%s of %d and %d samples into %d and %d panics: %s", name, len(a), len(b), len(lo), len(ro), msg)
		}
		for i := 0; i < len(lo) || i < len(ro); i++ {
			wl, wr := 9.0, 9.0
			if i < n {
				wl, wr = want(i)
			}
			if i < len(lo) && !Close(float64(lo[i]), wl, 1e-5, 0) || i < len(ro) && !Close(float64(ro[i]), wr, 1e-5, 0) {
				t.Fatalf("%s at %v, width %v, law %v: sample %d of %v and %v gives %v and %v, expected %v and %v", name, p, w, l, i, a, b, lo, ro, wl, wr)
			}
		}
		intact(t, name, lo, ro)
		if k == 0 { // one of the outputs is the input
			x, y := buf(a), buf(make([]float32, len(ro)))
			for i := range y {
				y[i] = 9
			}
			if t.Bool("onto right") {
				pan.Process(x, p, l, y, x)
				x, y = y, x
			} else {
				pan.Process(x, p, l, x, y)
			}
			for i := 0; i < min(len(x), len(y)); i++ {
				if wl, wr := want(i); !Close(float64(x[i]), wl, 1e-5, 0) || !Close(float64(y[i]), wr, 1e-5, 0) {
					t.Fatalf("panning in place at %v, law %v: sample %d of %v gives %v and %v, expected %v and %v", p, l, i, a, x[i], y[i], wl, wr)
				}
			}
			intact(t, name, x, y)
			continue
		}
		x, y := buf(a), buf(b)
		switch k {
		case 1:
			pan.ProcessStereo(x, y, p, l, x, y)
		case 2:
			pan.Width(x, y, w, x, y)
		case 3:
			pan.Balance(x, y, p, x, y)
		}
		for i := range x[:minLen(x, y)] {
			if wl, wr := want(i); !Close(float64(x[i]), wl, 1e-5, 0) || !Close(float64(y[i]), wr, 1e-5, 0) {
				t.Fatalf("%s in place at %v, width %v, law %v: sample %d of %v and %v gives %v and %v, expected %v and %v", name, p, w, l, i, a[i], b[i], x[i], y[i], wl, wr)
			}
		}
		intact(t, name, x, y)
	}
	// A small move of the pan position changes little.
	one := []float32{1}
	q := p + 1e-4
	if q <= 1 {
		var l1, r1, l2, r2 [1]float32
		pan.ProcessStereo(one, one, p, l, l1[:], r1[:])
		pan.ProcessStereo(one, one, q, l, l2[:], r2[:])
		if !(math.Abs(float64(l1[0]-l2[0])) <= 1e-3) || !(math.Abs(float64(r1[0]-r2[0])) <= 1e-3) {
			t.Fatalf("law %v: stereo panning jumps from %v/%v to %v/%v between %v and %v", l, l1[0], r1[0], l2[0], r2[0], p, q)
		}
	}
}

func autopan(t *T) {
	rate, depth := float32(t.U(0, 30, "rate")), float32(t.U(-1, 1, "depth"))
	sr := float32(t.Rate("sr"))
	l := Pick(t, "law", laws...)
	ap := pan.NewAutoPan(rate, depth, l)
	n := t.Size(1, 400, 20000, "n")
	x := t.Signal(n, 1, "x")
	t.Desc(" rate=%v depth=%v sr=%v law=%v", rate, depth, sr, l)
	part := t.Partition(n, "part")
	t.Nontrivial(math.Abs(float64(depth)) > 0.01 && len(part) > 1)
	ph := 0.0
	pos := 0
	for _, k := range part {
		switch t.Int(0, 6, "op") {
		case 0:
			rate = float32(t.U(0, 30, "rate2"))
			ap.SetRate(rate)
		case 1:
			depth = float32(t.U(-1, 1, "depth2"))
			ap.SetDepth(depth)
		case 2:
			ap.Reset()
			ph = 0
		}
		lo, ro := make([]float32, k), make([]float32, k)
		if t.Int(0, 3, "short") == 0 { // the shortest buffer counts
			if t.Bool("which") {
				lo = append(lo, 7)
				ro = ro[:t.Int(0, k, "short n")]
			} else {
				lo = lo[:t.Int(0, k, "short n")]
				ro = append(ro, 7)
			}
			if cut := min(len(lo), len(ro)); cut < k {
				a, b := ap, *ap
				a.Process(x[pos:pos+k], sr, lo, ro)
				for i := cut; i < max(len(lo), len(ro)); i++ {
					if i < len(lo) && lo[i] != 0 && lo[i] != 7 || i < len(ro) && ro[i] != 0 && ro[i] != 7 {
						t.Fatalf("sample %d was written, the other side has %d", i, cut)
					}
				}
				*ap = b
				lo, ro = make([]float32, k), make([]float32, k)
			}
		}
		ap.Process(x[pos:pos+k], sr, lo, ro)
		for i := 0; i < k; i++ {
			p := math.Sin(ph) * float64(depth)
			wl, wr := law(l, p)
			v := float64(x[pos+i])
			tol := 5e-4 + 5e-7*float64(pos+i) // rounding adds up in the phase
			if !Close(float64(lo[i]), v*wl, tol, 0) || !Close(float64(ro[i]), v*wr, tol, 0) {
				t.Fatalf("sample %d (phase %v, depth %v): %v is panned to %v and %v, expected %v and %v", pos+i, ph, depth, v, lo[i], ro[i], v*wl, v*wr)
			}
			ph += 2 * math.Pi * float64(rate) / float64(sr)
		}
		pos += k
	}
}

func fade(t *T) {
	n := t.Size(0, 600, 20000, "n")
	x := t.Signal(n, 1, "x")
	t.Nontrivial(n > 1)
	g0, g1 := float32(t.U(-2, 2, "g0")), float32(t.U(-2, 2, "g1"))
	db := t.Bool("db")
	b := buf(x)
	G0, G1 := float64(g0), float64(g1)
	if db {
		G0, G1 = math.Pow(10, G0), math.Pow(10, G1)
		gain.FadeDb(b, g0*20, g1*20)
	} else {
		gain.Fade(b, g0, g1)
	}
	t.Desc(" from %v to %v db=%v", g0, g1, db)
	m := math.Max(math.Abs(G0), math.Abs(G1))
	for i := range b {
		g := G0
		if n > 1 {
			g = G0 + (G1-G0)*float64(i)/float64(n-1)
		}
		if !Close(float64(b[i]), float64(x[i])*g, (1e-4+1e-7*float64(n))*m+1e-9, 0) {
			t.Fatalf("fade from %v to %v (decibels: %v) over %d samples: sample %d is %v, expected %v", g0, g1, db, n, i, b[i], float64(x[i])*g)
		}
	}
	intact(t, "fading", b)
	a, c, p := float32(t.U(-2, 2, "a")), float32(t.U(-2, 2, "b")), float32(t.U(0, 1, "p"))
	A, C, P := float64(a), float64(c), float64(p)
	for _, k := range []struct {
		name string
		got  float32
		want float64
	}{
		{"dry/wet mix", mix.DryWet(a, c, p), A*(1-P) + C*P},
		{"linear crossfade", mix.CrossfadeLinear(a, c, p), A*(1-P) + C*P},
		{"equal-power crossfade", mix.CrossfadeCosine(a, c, p), A*math.Cos(P*math.Pi/2) + C*math.Sin(P*math.Pi/2)},
	} {
		if !Close(float64(k.got), k.want, 1e-6, 0) {
			t.Fatalf("%s of %v and %v at %v is %v, expected %v", k.name, a, c, p, k.got, k.want)
		}
	}
}
