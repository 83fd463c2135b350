// C06: parameter smoothing glides to the target, without overshoot, in time.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C06",
		Subs: []Sub{
			{Name: "smoother", Quick: 110000, Thorough: 550000, Fn: smoother,
				Rule: "sequences of retargets (also mid-glide, repeated, zero and negative), resets and rate changes against the closed form of each smoothing law sample by sample; ends with the glide completing; non-trivial: a retarget during a glide"},
			{Name: "parameter", Quick: 160000, Thorough: 800000, Fn: parameter,
				Rule: "value changes through every route (normalized, plain, behind the wrapper's back), smoothing switched off and on, sample-rate updates; the smoothed value stays between old and new and settles at the parameter's value on time; non-trivial: a change while disabled or by another route"},
			{Name: "manager", Quick: 77000, Thorough: 385000, Fn: manager,
				Rule: "several parameters managed together against the same parameters smoothed one by one; non-trivial: at least two with pending glides"},
		},
	})
}

const thr = 1e-4 // the default threshold

func name(k param.SmoothingType) string {
	return []string{"linear", "exponential", "logarithmic"}[k]
}

type model struct {
	kind        param.SmoothingType
	thr         float64
	rate        float64
	cur, target float64
	from        float64
	k           int
	glideRate   float64
	active      bool
}

func newModel(kind param.SmoothingType, rate float64) *model {
	return &model{kind: kind, rate: rate, thr: thr}
}

func (m *model) set(x float64) {
	if math.Abs(x-m.target) < m.thr {
		return
	}
	m.target, m.from, m.k, m.glideRate, m.active = x, m.cur, 0, m.rate, true
}

func (m *model) next() float64 {
	if !m.active {
		return m.cur
	}
	m.k++
	switch m.kind {
	case param.ExponentialSmoothing:
		m.cur = m.target + (m.cur-m.target)*m.rate
		if math.Abs(m.cur-m.target) < m.thr {
			m.cur, m.active = m.target, false
		}
	case param.LinearSmoothing:
		if f := float64(m.k) / m.glideRate; m.glideRate > 0 && f < 1 {
			m.cur = m.from + (m.target-m.from)*f
		} else {
			m.cur, m.active = m.target, false
		}
	case param.LogarithmicSmoothing:
		a, b := math.Max(m.from, 0.001), math.Max(m.target, 0.001)
		if f := float64(m.k) / m.glideRate; m.glideRate > 0 && f < 1 && a != b {
			m.cur = a * math.Pow(b/a, f)
		} else {
			m.cur, m.active = m.target, false
		}
	}
	return m.cur
}

// span is how many samples a glide can take.
func (m *model) span(dist float64) int {
	if m.kind == param.ExponentialSmoothing {
		return 10 + int(1.01*math.Log(m.thr/(dist+m.thr))/math.Log(math.Max(m.rate, 1e-9)))
	}
	return int(m.glideRate) + 3
}

func genRate(t *T, kind param.SmoothingType) float64 {
	if kind == param.ExponentialSmoothing {
		return Pick(t, "rate", 0.9, 0.99, 0.999, 0.5, 0, t.U(0, 0.999, "r"))
	}
	return Pick(t, "rate", 1.0, 2, 10, 100, 0, 0.5, -1, float64(t.Int(1, 300, "rn")), t.U(0.1, 300, "rf"))
}

func genTarget(t *T, prev float64) float64 {
	switch t.Int(0, 9, "target") {
	case 0:
		return prev
	case 1:
		return prev + thr*0.3
	case 2:
		return 0
	case 3:
		return -t.U(0.01, 100, "v")
	case 4:
		return t.LogU(20, 20000, "v")
	case 5:
		return t.LogU(1e-5, 1e-3, "v")
	case 6:
		return t.LogU(0.0011, 0.02, "v")
	default:
		return t.U(0.01, 2, "v")
	}
}

func smoother(t *T) {
	kind := param.SmoothingType(t.Int(0, 2, "kind"))
	rate := genRate(t, kind)
	s := param.NewSmoother(kind, rate)
	m := newModel(kind, rate)
	t.Desc("%s rate=%v", name(kind), rate)
	check := func(got float64, lo, hi float64) {
		want := m.cur
		tol := 1e-9 * (1 + math.Abs(m.from) + math.Abs(m.target))
		if kind == param.ExponentialSmoothing {
			tol += 1.0001 * m.thr * math.Max(1-m.rate, 1e-3) // rounding can move the snap by one sample
			if math.Abs(want-m.target) < 1.001*m.thr {
				tol += m.thr
			}
		}
		if edge := math.Max(m.target, 0.001); kind == param.LogarithmicSmoothing && m.target < 0.001 && (math.Abs(float64(m.k)-math.Max(m.glideRate, 1)) <= 1 || m.from < 0.001+1e-9) && (math.Abs(got-edge) <= 1e-9 || got == m.target) {
			// the sample on which the ramp meets its floor is up to rounding
			want = got
			m.cur, m.active = got, s.IsSmoothing()
		}
		// rounding can make a ramp end one sample early or late
		if !(math.Abs(got-want) <= tol) && !(m.k >= int(m.glideRate) && math.Abs(got-m.target) <= tol) &&
			!(m.k-1 <= int(m.glideRate) && m.k >= int(m.glideRate) && kind != param.ExponentialSmoothing && got >= lo-tol && got <= hi+tol && math.Abs(got-m.target) < 1e-6*(1+math.Abs(m.target))) {
			t.Fatalf("%s rate %v: glide %v -> %v, sample %d is %v, expected %v", name(kind), m.rate, m.from, m.target, m.k, got, want)
		}
		if !(got >= lo-tol && got <= hi+tol) {
			t.Fatalf("%s rate %v: glide %v -> %v, sample %d is %v, outside the glide", name(kind), m.rate, m.from, m.target, m.k, got)
		}
	}
	step := func(n int) {
		for i := 0; i < n; i++ {
			lo, hi := math.Min(m.cur, m.target), math.Max(m.cur, m.target)
			if kind == param.LogarithmicSmoothing { // the law lifts values to its floor
				hi = math.Max(hi, math.Min(0.001, math.Max(hi, 0.001)))
			}
			m.next()
			check(s.Next(), lo, hi)
		}
	}
	for i := t.Size(1, 7, 60, "ops"); i > 0; i-- {
		switch t.Int(0, 9, "op") {
		case 0:
			x := genTarget(t, m.target)
			s.Reset(x)
			if t.Int(0, 3, "threshold") == 0 {
				m.thr = t.LogU(3e-7, 1e-2, "thr")
				s.SetThreshold(m.thr)
				t.Desc(" threshold(%v)", m.thr)
			}
			m.cur, m.target, m.from, m.active, m.k = x, x, x, false, 0
			t.Desc(" reset(%v)", x)
			if still := s.IsSmoothing(); still || s.Next() != x || s.IsSmoothing() {
				t.Fatalf("after Reset(%v) the smoother gives %v (smoothing %v, then %v)", x, s.Next(), still, s.IsSmoothing())
			}
		case 1:
			if m.active && kind == param.ExponentialSmoothing {
				continue
			}
			r := genRate(t, kind)
			s.SetRate(r)
			m.rate = r
			t.Desc(" rate(%v)", r)
		default:
			x := genTarget(t, m.target)
			t.Nontrivial(m.active)
			s.SetTarget(x)
			m.set(x)
			t.Desc(" ->%v", x)
			if m.active && m.k == 0 && !(math.Abs(m.target-m.cur) <= m.thr) && !s.IsSmoothing() {
				t.Fatalf("%s: after a target of %v from %v smoothing is %v", name(kind), x, m.cur, s.IsSmoothing())
			}
			n := Pick(t, "run", 0, 1, 5, 50, 400)
			if t.Bool("buffer") && n > 0 {
				buf := make([]float32, n)
				for j := range buf {
					buf[j] = float32(j)
				}
				vals := make([]float64, 0, n)
				s.Process(buf, func(v float64, x float32) float32 { vals = append(vals, v); return x + 1 })
				if len(vals) != n {
					t.Fatalf("Process calls back %d times for %d samples", len(vals), n)
				}
				for j, v := range vals {
					if buf[j] != float32(j)+1 {
						t.Fatalf("Process stores %v at %d", buf[j], j)
					}
					lo, hi := math.Min(m.cur, m.target), math.Max(m.cur, m.target)
					if kind == param.LogarithmicSmoothing {
						hi = math.Max(hi, 0.001)
					}
					m.next()
					check(v, lo, hi)
				}
			} else {
				step(n)
			}
			t.Desc("*%d", n)
		}
	}
	// whatever happened, the glide completes
	n := m.span(math.Abs(m.cur - m.target))
	var last float64
	for i := 0; i < n; i++ {
		last = s.Next()
		m.next()
	}
	if s.IsSmoothing() || !(math.Abs(last-m.target) <= 1e-12*math.Abs(m.target)) {
		t.Fatalf("%s rate %v: %d samples after the target %v the smoother is at %v (smoothing %v)", name(kind), m.rate, n, m.target, last, s.IsSmoothing())
	}
}

func parameter(t *T) {
	kind := param.SmoothingType(t.Int(0, 2, "kind"))
	lo := Pick(t, "lo", 20.0, 0.5, 1)
	if kind != param.LogarithmicSmoothing {
		lo = Pick(t, "lo2", 0.0, -80, 20)
	}
	hi := lo + Pick(t, "span", 1.0, 100, 20000)
	p := param.New(3, "p").Range(lo, hi).Build()
	p.SetValue(t.U(0, 1, "init"))
	rate := 0.9
	if kind != param.ExponentialSmoothing {
		rate = 50
	}
	sp := param.NewSmoothedParameter(p, kind, rate)
	if v := sp.GetSmoothedValue(); v != p.GetPlainValue() {
		t.Fatalf("a new smoothed parameter starts at %v, its value is %v", v, p.GetPlainValue())
	}
	enabled := true
	cur := p.GetPlainValue()
	span := 60
	if kind == param.ExponentialSmoothing {
		span = 20 + int(math.Log(thr/(hi-lo+1))/math.Log(0.9))
	}
	offRoute := false
	t.Desc("%s [%v,%v]", name(kind), lo, hi)
	for i := t.Size(1, 6, 60, "ops"); i > 0; i-- {
		old := cur
		switch t.Int(0, 6, "op") {
		case 0, 1:
			sp.SetValue(t.U(0, 1, "v"))
			offRoute = offRoute || !enabled
		case 2:
			sp.SetPlainValue(t.U(lo, hi, "v"))
			offRoute = true
		case 3:
			p.SetValue(t.U(0, 1, "v"))
			offRoute = true
		case 4:
			enabled = t.Bool("enabled")
			sp.SetSmoothing(enabled)
			if !enabled {
				old = p.GetPlainValue()
			}
			t.Desc(" on=%v", enabled)
		case 5:
			// set the time constant while at rest, then jump and time it
			for k := 0; k < span+10; k++ {
				cur = sp.GetSmoothedValue()
			}
			sr, ms := t.Rate("sr"), t.U(0.5, 20, "ms")
			if t.Int(0, 5, "short") == 0 { // shorter than a sample, down to nothing
				ms = Pick(t, "very short", 0, 0.001, 0.015)
			}
			sp.UpdateSampleRate(sr, ms)
			n := sr * ms / 1000
			a := p.GetPlainValue()
			sp.SetValue(t.U(0, 1, "v"))
			b := p.GetPlainValue()
			if !enabled || math.Abs(b-a) < 0.01*(hi-lo) || math.Abs(cur-a) > 2*thr {
				for k := 0; k < int(n)+3; k++ {
					cur = sp.GetSmoothedValue()
				}
			} else {
				t.Class("timed")
				// linear and logarithmic glides take n samples; exponential ones leave 0.1%
				for k := 0; k < int(n*0.9); k++ {
					cur = sp.GetSmoothedValue()
				}
				left := math.Abs(cur-b) / math.Abs(b-a)
				if int(n*0.9) > 0 && n >= 20 && cur == b && math.Abs(b-a)*0.0015 > thr {
					t.Fatalf("%s: a glide of %v ms at %v Hz is over after 90%% of its time", name(kind), ms, sr)
				}
				for k := int(n * 0.9); k < int(math.Ceil(n))+2; k++ {
					cur = sp.GetSmoothedValue()
				}
				left = math.Abs(cur-b) / math.Abs(b-a)
				lim := 0.00101 + thr/math.Abs(b-a)
				if !(left <= lim) {
					t.Fatalf("%s: a glide of %v ms at %v Hz from %v to %v still has %.4g of the way to go at its end (%v)", name(kind), ms, sr, a, b, left, cur)
				}
			}
			if kind == param.ExponentialSmoothing {
				rate = math.Exp(-6.908 / n)
				span = 20 + int(math.Log(thr/(hi-lo+1))/math.Log(rate))
			} else {
				span = int(n) + 10
			}
			t.Desc(" time(%v,%.3g)", sr, ms)
			continue
		case 6:
			if kind == param.ExponentialSmoothing {
				r := t.U(0.1, 0.99, "r")
				sp.SetSmoothingRate(r)
				span = 20 + int(math.Log(thr/(hi-lo+1))/math.Log(r))
				if s2 := 20 + int(math.Log(thr/(hi-lo+1))/math.Log(rate)); s2 > span {
					span = s2
				}
				rate = r
			} else {
				r := t.Int(1, 200, "r")
				sp.SetSmoothingRate(float64(r))
				if r+10 > span {
					span = r + 10
				}
			}
		}
		want := p.GetPlainValue()
		n := Pick(t, "n", 0, 1, 20, span)
		for k := 0; k < n; k++ {
			v := sp.GetSmoothedValue()
			tol := 1e-9*(1+math.Abs(lo)+math.Abs(hi)) + thr
			if !enabled {
				if v != want {
					t.Fatalf("smoothing is off but the value is %v instead of %v", v, want)
				}
				cur = v
				continue
			}
			if v < math.Min(old, want)-tol || v > math.Max(old, want)+tol {
				t.Fatalf("%s: smoothed value %v leaves the way from %v to %v", name(kind), v, old, want)
			}
			if !(math.Abs(v-want) <= math.Abs(cur-want)+tol) && n > 1 && k > 0 {
				t.Fatalf("%s: smoothed value moves from %v to %v, away from %v", name(kind), cur, v, want)
			}
			cur = v
		}
		if n == 0 && enabled {
			// nothing read: a later glide may start from before this change
			for k := 0; k < span; k++ {
				cur = sp.GetSmoothedValue()
			}
			n = span
		}
		t.Desc(" %.4g*%d", want, n)
		if enabled && n >= span && !(math.Abs(cur-want) <= 1.001*thr) {
			t.Fatalf("%s: %d samples after the parameter was set to %v its smoothed value is %v", name(kind), n, want, cur)
		}
		if !enabled {
			cur = want
		}
	}
	t.Nontrivial(offRoute)
}

func manager(t *T) {
	ps := param.NewParameterSmoother()
	n := t.Size(1, 5, 100, "n")
	var ref []*param.SmoothedParameter
	raw := map[int][2]*param.Parameter{}
	base := Pick(t, "first id", 10, 0, 1<<31)
	for i := 0; i < n; i++ {
		kind := param.SmoothingType(t.Int(0, 2, "kind"))
		rate := genRate(t, kind)
		a, b := param.New(uint32(i), "a").Range(1, 10).Build(), param.New(uint32(i), "b").Range(1, 10).Build()
		raw[i] = [2]*param.Parameter{a, b}
		if t.Int(0, 5, "again") == 0 { // the last one added under an id counts
			ps.Add(uint32(base+i), param.New(uint32(i), "x").Range(1, 20).Build(), kind, rate)
		}
		ps.Add(uint32(base+i), a, kind, rate)
		ref = append(ref, param.NewSmoothedParameter(b, kind, rate))
	}
	pend := map[int]bool{}
	for ops := t.Size(1, 10, 100, "ops"); ops > 0; ops-- {
		i := t.Int(0, n-1, "i")
		id := uint32(base + i)
		switch t.Int(0, 4, "op") {
		case 4: // behind the manager's back
			v := t.U(0, 1, "v")
			raw[i][0].SetValue(v)
			raw[i][1].SetValue(v)
			pend[i] = true
			t.Desc(" %d<%.3g", i, v)
		case 0:
			v := t.U(0, 1, "v")
			ps.SetValue(id, v)
			ref[i].SetValue(v)
			pend[i] = true
			t.Desc(" %d=%.3g", i, v)
		case 1:
			on := t.Bool("on")
			ps.SetSmoothing(id, on)
			ref[i].SetSmoothing(on)
			t.Desc(" %d:%v", i, on)
		case 2:
			for k := t.Size(1, 30, 3000, "k"); k > 0; k-- {
				ps.UpdateAll()
				for _, r := range ref {
					r.GetSmoothedValue()
				}
			}
			t.Desc(" u")
		case 3:
			if a, b := ps.GetSmoothed(id), ref[i].GetSmoothedValue(); a != b {
				t.Fatalf("managed parameter %d gives %v, the same parameter alone %v", i, a, b)
			}
		}
		if sp, ok := ps.Get(id); !ok || sp.GetValue() != ref[i].GetValue() {
			t.Fatalf("managed parameter %d holds another value than the same parameter alone", i)
		}
	}
	for i := range ref {
		if a, b := ps.GetSmoothed(uint32(base+i)), ref[i].GetSmoothedValue(); a != b {
			t.Fatalf("managed parameter %d gives %v, the same parameter alone %v", i, a, b)
		}
	}
	ps.SetValue(999, 0.5)
	ps.SetSmoothing(999, false)
	if _, ok := ps.Get(999); ok || ps.GetSmoothed(999) != 0 {
		t.Fatalf("an unknown id gives a value")
	}
	t.Nontrivial(len(pend) >= 2)
}
