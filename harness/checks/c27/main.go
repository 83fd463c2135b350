// C27: chains, parallel chains, builders and adapters.
package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C27",
		Subs: []Sub{
			{Name: "tree", Quick: 120000, Thorough: 3000000, Fn: tree,
				Rule: "random trees of chains, parallel chains, functions and stateful leaves, with blocks of changing sizes, bypass changes, resets and later additions, against a recursive model; non-trivial: two levels and a parallel chain"},
			{Name: "stereo", Quick: 60000, Thorough: 1000000, Fn: stereo,
				Rule: "stereo chains (nested too) of stateful and channel-mixing leaves against a model; non-trivial: two leaves or more"},
			{Name: "builder", Quick: 400000, Thorough: 2000000, Fn: builder,
				Rule: "sequences of builder calls with and without nil parts: a chain that does what was added, or an error and no chain; non-trivial: a nil part or two parts"},
			{Name: "adapters", Quick: 25000, Thorough: 300000, Fn: adapters,
				Rule: "adapters and ready-made chains against a second instance of what they wrap, with setting changes and resets; non-trivial: a change or a reset"},
		},
		Assumptions: []string{"the parts of a chain work in place on the block they are given"},
	})
}

// leaf is a processor under a chain, kind decides what it does; the model has its own copy.
type leaf struct {
	kind  int
	a     float64
	d     int
	line  []float64
	n     float64
	last  float64
	calls int
	reset int
	seen  int
	mute  bool
}

func (l *leaf) step(x float64) float64 {
	l.seen++
	switch l.kind {
	case 0: // gain
		return l.a * x
	case 1: // offset
		return x + l.a
	case 2: // delay
		l.line = append(l.line, x)
		if len(l.line) > l.d {
			y := l.line[0]
			l.line = l.line[1:]
			return y
		}
		return 0
	case 3: // counter
		l.n++
		return x + l.a*float64(int(l.n)%7)
	case 4: // leaky integrator
		l.last = 0.5*l.last + x
		return l.last
	case 5: // fold
		return math.Abs(x) - l.a
	}
	return x
}
func (l *leaf) clear() { l.line, l.n, l.last = nil, 0, 0 }
func (l *leaf) Process(b []float32) {
	l.calls++
	for i := range b {
		b[i] = float32(l.step(float64(b[i])))
	}
}
func (l *leaf) Reset() { l.reset++; l.clear() }

func newLeaf(t *T) (a, b *leaf) {
	k := t.Int(0, 5, "leaf")
	v := Pick(t, "amount", 0.5, -0.5, 1, 0.25, 0.125, -1)
	d := t.Int(1, 40, "delay")
	return &leaf{kind: k, a: v, d: d}, &leaf{kind: k, a: v, d: d}
}

// node is the model.
type node struct {
	kind   string
	leaf   *leaf
	impl   *leaf
	kids   []*node
	gains  []float64
	bypass bool
	chain  *fdsp.Chain
	par    *fdsp.ParallelChain
}

func (n *node) proc() fdsp.Processor {
	switch n.kind {
	case "chain":
		return n.chain
	case "parallel":
		return n.par
	}
	return n.impl
}

func (n *node) run(x []float64) {
	switch n.kind {
	case "leaf", "func":
		for i := range x {
			x[i] = n.leaf.step(x[i])
		}
	case "chain":
		if n.bypass {
			return
		}
		for _, k := range n.kids {
			k.run(x)
		}
	case "parallel":
		if n.bypass || len(n.kids) == 0 {
			return
		}
		sum := make([]float64, len(x))
		for j, k := range n.kids {
			y := append([]float64(nil), x...)
			k.run(y)
			for i := range sum {
				sum[i] += n.gains[j] * y[i]
			}
		}
		copy(x, sum)
	}
}

func (n *node) resetAll() {
	if n.kind == "leaf" {
		n.leaf.Reset()
	}
	for _, k := range n.kids {
		k.resetAll()
	}
}

func (n *node) String() string {
	s := n.kind
	if n.leaf != nil {
		return fmt.Sprintf("%s%d(%v)", s, n.leaf.kind, n.leaf.a)
	}
	for i, k := range n.kids {
		s += " " + fmt.Sprint(k)
		if n.kind == "parallel" {
			s += fmt.Sprintf("*%v", n.gains[i])
		}
	}
	return "[" + s + "]"
}

type forest struct {
	all   []*node
	depth int
	par   bool
}

func (f *forest) add(t *T, n *node, depth int) {
	if n.kind == "chain" && t.Int(0, 3, "func") == 0 {
		a, b := newLeaf(t)
		k := &node{kind: "func", leaf: a, impl: b}
		r := n.chain.AddFunc("f", b.Process)
		if r != n.chain {
			t.Fatalf("AddFunc does not return the chain")
		}
		n.kids = append(n.kids, k)
		f.all = append(f.all, k)
		return
	}
	k := f.grow(t, depth)
	n.kids = append(n.kids, k)
	if n.kind == "chain" {
		if n.chain.Add(k.proc()) != n.chain {
			t.Fatalf("Add does not return the chain")
		}
	} else {
		g := Pick(t, "gain", 1.0, 0.5, -1, 0.25, 0)
		n.gains = append(n.gains, g)
		if n.par.Add(k.proc(), float32(g)) != n.par {
			t.Fatalf("Add does not return the parallel chain")
		}
	}
}

func (f *forest) grow(t *T, depth int) *node {
	if depth > f.depth {
		f.depth = depth
	}
	var n *node
	switch k := t.Int(0, 4, "node"); {
	case depth > 0 && (k < 2 || depth > 3):
		a, b := newLeaf(t)
		n = &node{kind: "leaf", leaf: a, impl: b}
		f.all = append(f.all, n)
		return n
	case k == 2 || k == 1:
		n = &node{kind: "parallel", par: fdsp.NewParallelChain("p")}
		f.par = true
	default:
		n = &node{kind: "chain", chain: fdsp.NewChain("c")}
	}
	f.all = append(f.all, n)
	for i := t.Size(0, 4, []int{40, 8, 5, 4, 4, 4}[min(depth, 5)], "parts"); i > 0; i-- {
		f.add(t, n, depth+1)
	}
	return n
}

func sizes(t *T) int { return Pick(t, "block", 1, 0, 2, 16, 17, 64, t.Size(1, 300, 5000, "len")) }

func tree(t *T) {
	f := &forest{}
	root := f.grow(t, 0)
	t.Nontrivial(f.depth >= 2 && f.par)
	t.Desc("%v:", root)
	for s := t.Size(1, 8, 60, "steps"); s > 0; s-- {
		switch t.Int(0, 9, "op") {
		case 0:
			root.proc().Reset()
			root.resetAll()
			t.Desc(" reset")
			for _, n := range f.all {
				if n.kind == "leaf" && n.impl.reset != n.leaf.reset {
					t.Fatalf("a reset of %v reached the part %v %d times, expected %d", root, n, n.impl.reset, n.leaf.reset)
				}
			}
		case 1, 2:
			n := Pick(t, "which", f.all...)
			b := t.Bool("bypass")
			switch n.kind {
			case "chain":
				n.chain.SetBypass(b)
			case "parallel":
				n.par.SetBypass(b)
			default:
				continue
			}
			n.bypass = b
			t.Desc(" bypass %v of %v", b, n)
		case 3:
			if n := Pick(t, "where", f.all...); n.kind == "chain" || n.kind == "parallel" {
				f.add(t, n, 3)
				t.Desc(" add")
			}
		default:
			n := sizes(t)
			x := t.Signal(n, 1, "x")
			buf := make([]float32, n+16)
			for i := range buf {
				buf[i] = 77
			}
			b := buf[8 : 8+n]
			if t.Bool("exact") {
				b = buf[8 : 8+n : 8+n]
			}
			copy(b, x)
			w := make([]float64, n)
			for i := range x {
				w[i] = float64(x[i])
			}
			root.proc().Process(b)
			root.run(w)
			t.Desc(" %d", n)
			big := 1.0
			for i := range w {
				big = math.Max(big, math.Abs(w[i]))
			}
			for i := range w {
				if !Close(float64(b[i]), w[i], 3e-4*big, 1e-4) {
					t.Fatalf("sample %d of %d through %v is %v, expected %v", i, n, root, b[i], w[i])
				}
			}
			for i := 0; i < 8; i++ {
				if buf[i] != 77 || buf[8+n+i] != 77 {
					t.Fatalf("%v wrote beyond its block of %d", root, n)
				}
			}
			for _, k := range f.all {
				if k.impl != nil && k.impl.seen != k.leaf.seen {
					t.Fatalf("the part %v got %d samples, expected %d", k, k.impl.seen, k.leaf.seen)
				}
			}
		}
		for _, n := range f.all {
			if n.kind == "chain" && (n.chain.Count() != len(n.kids) || n.chain.IsEmpty() != (len(n.kids) == 0)) {
				t.Fatalf("%v has %d parts (empty %v)", n, n.chain.Count(), n.chain.IsEmpty())
			}
		}
	}
}

// sleaf is a stereo part.
type sleaf struct {
	kind   int
	a      float64
	l, r   leaf
	resets int
}

func (s *sleaf) step(x, y float64) (float64, float64) {
	switch s.kind {
	case 0:
		return y, x
	case 1:
		return (x + y) / 2, (x - y) / 2
	case 2:
		return s.a * x, y
	case 3:
		return s.l.step(x), s.r.step(y)
	}
	return s.l.step(x), y
}
func (s *sleaf) Reset() { s.resets++; s.l.clear(); s.r.clear() }
func (s *sleaf) ProcessStereo(l, r []float32) {
	for i := range l {
		a, b := s.step(float64(l[i]), float64(r[i]))
		l[i], r[i] = float32(a), float32(b)
	}
}

type snode struct {
	m, i   *sleaf
	chain  *fdsp.StereoChain
	kids   []*snode
	bypass bool
}

func (n *snode) run(l, r []float64) {
	if n.m != nil {
		for i := range l {
			l[i], r[i] = n.m.step(l[i], r[i])
		}
		return
	}
	if n.bypass {
		return
	}
	for _, k := range n.kids {
		k.run(l, r)
	}
}

func (n *snode) reset() {
	if n.m != nil {
		n.m.Reset()
	}
	for _, k := range n.kids {
		k.reset()
	}
}

func sgrow(t *T, depth int, all *[]*snode) *snode {
	n := &snode{}
	*all = append(*all, n)
	if depth > 0 && (depth > 2 || t.Int(0, 2, "leaf") > 0) {
		mk := func(k int, a float64, kl, kr, d int) *sleaf {
			return &sleaf{kind: k, a: a, l: leaf{kind: kl, a: a, d: d}, r: leaf{kind: kr, a: a / 2, d: d + 3}}
		}
		k, a, kl, kr, d := t.Int(0, 4, "kind"), Pick(t, "amount", 0.5, -1, 0.25), t.Int(0, 5, "l"), t.Int(0, 5, "r"), t.Int(1, 20, "delay")
		n.m, n.i = mk(k, a, kl, kr, d), mk(k, a, kl, kr, d)
		return n
	}
	n.chain = fdsp.NewStereoChain("s")
	for i := t.Size(0, 4, []int{40, 8, 5, 4, 4, 4}[min(depth, 5)], "parts"); i > 0; i-- {
		k := sgrow(t, depth+1, all)
		n.kids = append(n.kids, k)
		var p fdsp.StereoProcessor = k.i
		if k.i == nil {
			p = k.chain
		}
		if n.chain.Add(p) != n.chain {
			t.Fatalf("Add does not return the chain")
		}
	}
	return n
}

func stereo(t *T) {
	var all []*snode
	root := sgrow(t, 0, &all)
	leaves := 0
	for _, n := range all {
		if n.m != nil {
			leaves++
		}
	}
	t.Nontrivial(leaves >= 2)
	t.Desc("%d nodes, %d leaves", len(all), leaves)
	for s := t.Size(1, 8, 60, "steps"); s > 0; s-- {
		switch t.Int(0, 7, "op") {
		case 0:
			root.chain.Reset()
			root.reset()
			for _, n := range all {
				if n.m != nil && n.m.resets != n.i.resets {
					t.Fatalf("a reset reached a part %d times, expected %d", n.i.resets, n.m.resets)
				}
			}
		case 1:
			if n := Pick(t, "which", all...); n.chain != nil {
				n.bypass = t.Bool("bypass")
				n.chain.SetBypass(n.bypass)
				t.Desc(" bypass %v", n.bypass)
			}
		default:
			n := sizes(t)
			l, r := t.Signal(n, 1, "l"), t.Signal(n, 0.7, "r")
			wl, wr := make([]float64, n), make([]float64, n)
			for i := range l {
				wl[i], wr[i] = float64(l[i]), float64(r[i])
			}
			root.chain.ProcessStereo(l, r)
			root.run(wl, wr)
			t.Desc(" %d", n)
			for i := range l {
				if !Close(float64(l[i]), wl[i], 1e-4, 1e-4) || !Close(float64(r[i]), wr[i], 1e-4, 1e-4) {
					t.Fatalf("frame %d of %d is %v %v, expected %v %v", i, n, l[i], r[i], wl[i], wr[i])
				}
			}
		}
	}
}

func builder(t *T) {
	k := t.Size(0, 4, 40, "parts")
	if t.Bool("stereo") {
		b := fdsp.NewStereoBuilder("b")
		bad := 0
		var ms []*sleaf
		for i := 0; i < k; i++ {
			if t.Int(0, 3, "nil") == 0 {
				b = b.WithProcessor(nil)
				bad++
				continue
			}
			m, l := &sleaf{kind: 2, a: float64(i + 2)}, &sleaf{kind: 2, a: float64(i + 2)}
			b = b.WithProcessor(l)
			ms = append(ms, m)
			if t.Int(0, 6, "build") == 0 { // building in between changes nothing
				if _, err := b.Build(); (err != nil) != (bad > 0) {
					t.Fatalf("%d parts, %d of them nil: error %v", i+1, bad, err)
				}
			}
		}
		if t.Bool("twice") {
			b.Build()
		}
		t.Nontrivial(bad > 0 || k > 1)
		t.Desc("stereo, %d parts, %d nil", k, bad)
		c, err := b.Build()
		if (err != nil) != (bad > 0 || k == 0) || (c == nil) != (err != nil) {
			t.Fatalf("%d parts, %d of them nil: %v, error %v", k, bad, c, err)
		}
		if c != nil {
			l, r := []float32{1}, []float32{3}
			c.ProcessStereo(l, r)
			w := 1.0
			for _, m := range ms {
				w *= m.a
			}
			if !Close(float64(l[0]), w, 0, 1e-5) || r[0] != 3 {
				t.Fatalf("the chain gives %v %v, expected %v 3", l[0], r[0], w)
			}
		}
		return
	}
	b := fdsp.NewBuilder("b")
	bad := 0
	var m []*leaf
	for i := 0; i < k; i++ {
		p, q := newLeaf(t)
		switch t.Int(0, 6, "part") {
		case 0:
			b = b.WithProcessor(nil)
			bad++
		case 1:
			b = b.WithFunc("f", nil)
			bad++
		case 2, 3:
			b = b.WithFunc("f", q.Process)
			m = append(m, p)
		default:
			b = b.WithProcessor(q)
			m = append(m, p)
		}
		if t.Int(0, 6, "build") == 0 {
			if _, err := b.Build(); (err != nil) != (bad > 0) {
				t.Fatalf("%d parts, %d of them nil: error %v", i+1, bad, err)
			}
		}
	}
	if t.Bool("twice") {
		b.Build()
	}
	t.Nontrivial(bad > 0 || k > 1)
	t.Desc("%d parts, %d nil", k, bad)
	c, err := b.Build()
	if (err != nil) != (bad > 0 || k == 0) || (c == nil) != (err != nil) {
		t.Fatalf("%d parts, %d of them nil: %v, error %v", k, bad, c, err)
	}
	if c == nil {
		return
	}
	if c.Count() != len(m) || c.IsEmpty() {
		t.Fatalf("the chain of %d parts has %d", len(m), c.Count())
	}
	x := t.Signal(50, 1, "x")
	y := Clone(x)
	c.Process(y)
	for i := range x {
		v := float64(x[i])
		for _, l := range m {
			v = l.step(v)
		}
		if !Close(float64(y[i]), v, 1e-4, 1e-4) {
			t.Fatalf("sample %d is %v, expected %v", i, y[i], v)
		}
	}
}

func adapters(t *T) {
	sr := t.Rate("sr")
	var p fdsp.Processor
	var ref func(x []float32)
	var reset func()
	change := func() {}
	kind := Pick(t, "adapter", "compressor", "gate", "dc", "noise", "simple", "dynamics")
	switch kind {
	case "compressor":
		a, b := dynamics.NewCompressor(sr), dynamics.NewCompressor(sr)
		p = fdsp.NewCompressorAdapter(a)
		change = func() {
			th, ra, at, re := t.U(-50, 0, "threshold"), t.U(1, 20, "ratio"), t.LogU(1e-4, 0.5, "attack"), t.LogU(1e-3, 1, "release")
			for _, c := range []*dynamics.Compressor{a, b} {
				c.SetThreshold(th)
				c.SetRatio(ra)
				c.SetAttack(at)
				c.SetRelease(re)
			}
		}
		ref = func(x []float32) {
			for i := range x {
				x[i] = b.Process(x[i])
			}
		}
		reset = b.Reset
	case "gate":
		a, b := dynamics.NewGate(sr), dynamics.NewGate(sr)
		p = fdsp.NewGateAdapter(a)
		change = func() {
			th, ra, at, re := t.U(-50, 0, "threshold"), t.U(-80, 0, "range"), t.LogU(1e-4, 0.5, "attack"), t.LogU(1e-3, 1, "release")
			for _, c := range []*dynamics.Gate{a, b} {
				c.SetThreshold(th)
				c.SetRange(ra)
				c.SetAttack(at)
				c.SetRelease(re)
			}
		}
		ref = func(x []float32) {
			for i := range x {
				x[i] = b.Process(x[i])
			}
		}
		reset = b.Reset
	case "dc", "simple":
		b := utility.NewSimpleDCBlocker(sr)
		p = fdsp.NewDCBlockerAdapter(sr)
		if kind == "simple" {
			c, err := fdsp.CreateSimpleChain(sr)
			if err != nil {
				t.Fatalf("%v", err)
			}
			p = c
		}
		ref = func(x []float32) {
			for i := range x {
				x[i] = b.Process(x[i])
			}
		}
		reset = b.Reset
	case "dynamics":
		c, err := fdsp.CreateDynamicsChain(sr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		p = c
		g, k := dynamics.NewGate(sr), dynamics.NewCompressor(sr)
		g.SetThreshold(-40)
		g.SetRange(-60)
		k.SetThreshold(-20)
		k.SetRatio(4)
		k.SetAttack(0.010)
		k.SetRelease(0.100)
		ref = func(x []float32) {
			for i := range x {
				x[i] = k.Process(g.Process(x[i]))
			}
		}
		reset = func() { g.Reset(); k.Reset() }
	case "noise":
		noise(t)
		return
	}
	t.Desc("%s at %v:", kind, sr)
	some := false
	for s := t.Size(1, 6, 60, "steps"); s > 0; s-- {
		switch t.Int(0, 5, "op") {
		case 0:
			p.Reset()
			reset()
			some = true
			t.Desc(" reset")
		case 1:
			change()
			some = true
			t.Desc(" change")
		default:
			n := sizes(t) * 4
			x := t.Signal(n, Pick(t, "amp", 1.0, 0.1, 1e-3, 2), "x")
			y := Clone(x)
			p.Process(x)
			ref(y)
			t.Desc(" %d", n)
			for i := range x {
				if !Close(float64(x[i]), float64(y[i]), 1e-6, 1e-5) {
					t.Fatalf("sample %d of %d through the %s adapter is %v, what it wraps gives %v", i, n, kind, x[i], y[i])
				}
			}
		}
	}
	t.Nontrivial(some)
}

func noise(t *T) {
	ty := Pick(t, "type", utility.WhiteNoise, utility.PinkNoise, utility.BrownNoise, utility.BlueNoise, utility.VioletNoise)
	mix := Pick(t, "mix", 1, 0.5, 0, t.U(0, 2, "amount"), -0.5)
	a := fdsp.NewNoiseAdapter(ty, float32(mix))
	t.Desc("noise %d mix %v:", ty, mix)
	power := func(mix float64) float64 {
		n := 4000
		x := t.Signal(n, 1, "x")
		y := Clone(x)
		a.Process(y)
		s := 0.0
		for i := range x {
			d := float64(y[i]) - float64(x[i])
			// no noise type exceeds 4 at mix 1
			if !(math.Abs(d) <= 4*math.Abs(mix)+1e-6) {
				t.Fatalf("noise at mix %v adds %v", mix, d)
			}
			s += d * d
		}
		return s / float64(n)
	}
	p := power(mix)
	if mix != 0 && p == 0 {
		t.Fatalf("no noise at mix %v", mix)
	}
	if ty == utility.WhiteNoise && !Close(p, mix*mix/3, mix*mix*0.06+1e-9, 0) {
		t.Fatalf("white noise at mix %v has power %v", mix, p)
	}
	if t.Bool("reset") {
		a.Reset()
		if ty == utility.BrownNoise { // an integral of noise starts over at zero
			z := make([]float32, 4)
			a.Process(z)
			for i, v := range z {
				if !(math.Abs(float64(v)) <= 0.1*math.Abs(mix)*float64(i+1)+1e-9) {
					t.Fatalf("brown noise at mix %v is at %v %d samples after a reset", mix, v, i)
				}
			}
		}
	}
	m2 := Pick(t, "mix2", 0, 1, t.U(0, 2, "amount2"))
	a.SetMix(float32(m2))
	p2 := power(m2)
	if ty == utility.WhiteNoise && !Close(p2, m2*m2/3, m2*m2*0.06+1e-9, 0) {
		t.Fatalf("white noise set to mix %v has power %v", m2, p2)
	}
	t.Nontrivial(true)
}
