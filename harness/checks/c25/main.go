// C25: level, correlation and stereo meters and phase displays.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C25",
		Subs: []Sub{
			{Name: "peak", Quick: 12000, Thorough: 300000, Fn: peak,
				Rule: "histories of blocks of any length, hold times, decay rates and resets against a peak that decays by the block and a hold that lasts its time; non-trivial: a hold expired"},
			{Name: "rms", Quick: 21000, Thorough: 200000, Fn: rms,
				Rule: "histories of signals spread over 12 decades in blocks of any length against the mean square of the last window recomputed in full; non-trivial: the window wrapped"},
			{Name: "correlation", Quick: 16000, Thorough: 250000, Fn: correlation,
				Rule: "histories of stereo blocks (in phase, inverted, mixed, constant, one-sided, silent), averaging, hold times and resets against Pearson's coefficient of the last window; non-trivial: at least three measurements"},
			{Name: "field", Quick: 17000, Thorough: 200000, Fn: field,
				Rule: "histories of stereo blocks against averaged powers of left, right, mid and side, and the combined analyzer against its three meters; non-trivial: both powers above zero"},
			{Name: "scope", Quick: 8000, Thorough: 200000, Fn: scope,
				Rule: "histories of blocks, modes, scales, decays and resets against the ring of the last points, its polar form and statistics by axis; non-trivial: the ring wrapped"},
		},
		Assumptions: []string{"windows of at least one sample, finite input, both channels of equal length except where unequal blocks are meant to be ignored"},
	})
}

func values(t *T, n int, amp float64, label string) []float64 {
	s := t.Signal(n, amp, label)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64(s[i])
	}
	return x
}

func isDB(db, lin, silent float64) bool {
	if lin == 0 {
		return math.IsInf(db, -1)
	}
	return Close(db, 20*math.Log10(lin), 1e-9, 1e-12)
}

func peak(t *T) {
	sr := t.Rate("sr")
	m := analysis.NewPeakMeter(sr)
	hold, decay := 3.0, 20.0
	var p, h float64
	left := 0
	expired := false
	t.Desc("at %v:", sr)
	for s := t.Size(3, 20, 120, "steps"); s > 0; s-- {
		switch t.Int(0, 7, "op") {
		case 0:
			hold = (float64(t.Int(0, 2000, "hold")) + 0.5) / sr
			m.SetHoldTime(hold)
			t.Desc(" hold %v", hold)
		case 1:
			decay = Pick(t, "decay", 0.0, 20, t.LogU(1, 1e4, "rate"))
			m.SetDecayRate(decay)
			t.Desc(" decay %v", decay)
		case 2:
			if t.Bool("really") {
				m.Reset()
				p, h, left = 0, 0, 0
				t.Desc(" reset")
			}
		default:
			x := values(t, t.Size(0, 600, 20000, "n"), Pick(t, "amp", 1.0, 0.1, t.LogU(1e-6, 100, "amp v"), 0), "x")
			m.Process(x)
			b := 0.0
			for _, v := range x {
				b = math.Max(b, math.Abs(v))
			}
			p = math.Max(b, p*FromDB(-decay*float64(len(x))/sr))
			if b > h {
				h, left = b, int(hold*sr)
			} else if left -= len(x); left <= 0 {
				expired = expired || h > p
				h, left = p, 0
			}
		}
		if g := m.GetPeak(); !Close(g, p, 0, 1e-9) || !isDB(m.GetPeakDB(), g, 0) {
			t.Fatalf("the peak is %v or %v dB, expected %v", g, m.GetPeakDB(), p)
		}
		if g := m.GetHold(); !Close(g, h, 0, 1e-9) || !isDB(m.GetHoldDB(), g, 0) {
			t.Fatalf("the held peak is %v or %v dB, expected %v", g, m.GetHoldDB(), h)
		}
	}
	t.Nontrivial(expired)
}

func rms(t *T) {
	n := Pick(t, "window", 1, 2, t.Int(1, 40, "small"), t.Size(40, 300, 30000, "large"))
	m := analysis.NewRMSMeter(n)
	var hist []float64
	worst := 0.0
	t.Desc("window %d:", n)
	for s := t.Size(2, 20, 120, "steps"); s > 0; s-- {
		if t.Int(0, 11, "op") == 0 {
			m.Reset()
			hist, worst = nil, 0
			t.Desc(" reset")
		} else {
			x := values(t, t.Size(0, 2*n, 20000, "n"), Pick(t, "amp", 1.0, 0, t.LogU(1e-6, 1e6, "amp v")), "x")
			m.Process(x)
			hist = append(hist, x...)
		}
		last := hist[max(0, len(hist)-n):]
		sum := 0.0
		for _, v := range last {
			sum += v * v
		}
		// a running sum may carry the rounding of what it has seen since
		// the window before
		worst = 0
		for _, v := range hist[max(0, len(hist)-2*n-1):] {
			worst += v * v
		}
		want := 0.0
		if len(last) > 0 {
			want = sum / float64(len(last))
		}
		g := m.GetRMS()
		if !(g >= 0) || !(math.Abs(g*g-want) <= 1e-9*want+1e-15*float64(n)*worst/math.Max(1, float64(len(last)))) {
			t.Fatalf("the RMS level of %d samples is %v, expected %v", len(last), g, math.Sqrt(want))
		}
		if !isDB(m.GetRMSDB(), g, 0) {
			t.Fatalf("an RMS level of %v is %v dB", g, m.GetRMSDB())
		}
	}
	t.Nontrivial(len(hist) > n)
}

func stereo(t *T, n int) (l, r []float64) {
	l = values(t, n, Pick(t, "amp", 1.0, 0.3, t.LogU(1e-5, 10, "amp v"), t.LogU(1e-5, 10, "amp w"), t.LogU(1e-40, 10, "amp far")), "l")
	r = make([]float64, n)
	switch k := t.Int(0, 7, "relation"); k {
	case 0:
		copy(r, l)
	case 1, 2:
		a := Pick(t, "exact", t.U(-2, 2, "factor"), -1, 1)
		for i := range r {
			r[i] = a * l[i]
		}
	case 3, 4:
		b := values(t, n, 1, "r")
		a := t.U(-1, 1, "mix")
		for i := range r {
			r[i] = a*l[i] + b[i]
		}
	case 5: // constants
		a, b := t.U(-1, 1, "dc l"), t.U(-1, 1, "dc r")
		for i := range r {
			l[i], r[i] = a, b
		}
	case 6: // one side silent
		if t.Bool("left silent") {
			l, r = r, l
		}
	case 7: // silence
		for i := range l {
			l[i] = 0
		}
	}
	return l, r
}

func correlation(t *T) {
	sr := t.Rate("sr")
	n := Pick(t, "window", 8, 16, t.Size(2, 80, 20000, "window v"))
	m := analysis.NewCorrelationMeter(n, sr)
	avg, hold := 0.9, 3.0
	c, low := 0.0, 1.0
	lowKnown, floor := true, 0.0
	left := 0
	var hl, hr []float64
	count := 0
	t.Desc("window %d at %v:", n, sr)
	for s := t.Size(2, 25, 150, "steps"); s > 0; s-- {
		switch t.Int(0, 11, "op") {
		case 0:
			v := Pick(t, "avg", t.U(-0.1, 1.1, "averaging"), t.U(-0.1, 1.1, "averaging2"), 0, 1)
			m.SetAveraging(v)
			if v >= 0 && v <= 1 {
				avg = v
			}
			t.Desc(" averaging %v", v)
		case 1:
			h := t.Int(0, 400, "hold")
			if t.Int(0, 3, "hold near") == 0 {
				h = max(0, int(hold*sr)+t.Int(-2, 2, "hold by"))
			}
			hold = (float64(h) + 0.5) / sr
			m.SetPeakHoldTime(hold)
			t.Desc(" hold %v", hold)
		case 2:
			if t.Bool("really") {
				m.Reset()
				c, low, left, lowKnown = 0, 1, 0, true
				hl, hr = nil, nil
				t.Desc(" reset")
			}
		case 3:
			m.Process(make([]float64, 3), make([]float64, t.Int(0, 2, "unequal")))
		default:
			l, r := stereo(t, t.Size(1, 2*n, 20000, "n"))
			m.Process(l, r)
			hl, hr = append(hl, l...), append(hr, r...)
			if len(hl) < n {
				break
			}
			count++
			v, sure := pearson(hl[len(hl)-n:], hr[len(hr)-n:])
			if !sure {
				// a nearly constant channel: adopt what the meter says
				g := m.GetCorrelation()
				if !(math.Abs(g) <= 1+1e-9) {
					t.Fatalf("the correlation is %v", g)
				}
				c, lowKnown, floor = g, false, -1
				break
			}
			c = avg*c + (1-avg)*v
			same := true // constant channels correlate by convention, without rounding
			for i := len(hl) - n; i < len(hl); i++ {
				same = same && hl[i] == hl[len(hl)-1] && hr[i] == hr[len(hr)-1]
			}
			switch {
			case lowKnown && math.Abs(v-low) < 1e-9 && !(same && low == 1):
				// a tie, which rounding decides: unknown until a clearly
				// lower value comes
				lowKnown, floor = false, math.Min(v, c)
			case !lowKnown:
				if v < floor-1e-9 {
					lowKnown, low, left = true, v, int(hold*sr)
				}
				floor = math.Min(floor, math.Min(v, c))
			case v < low:
				low, left = v, int(hold*sr)
			default:
				if left -= len(l); left <= 0 {
					low, left = c, 0
				}
			}
		}
		g := m.GetCorrelation()
		if !(math.Abs(g-c) <= 1e-7) || !(math.Abs(g) <= 1+1e-12) {
			t.Fatalf("the correlation is %v, expected %v", g, c)
		}
		if p := m.GetPeakHold(); lowKnown && !(math.Abs(p-low) <= 1e-7) || !(math.Abs(p) <= 1+1e-12) {
			t.Fatalf("the lowest correlation is %v, expected %v", p, low)
		}
		if mc := m.GetMonoCompatibility(); !(math.Abs(mc-(g+1)/2) <= 1e-12) {
			t.Fatalf("the mono compatibility of %v is %v", g, mc)
		}
		st := m.GetPhaseStatus()
		want := analysis.PhaseOutOfPhase
		name := "Out of Phase"
		switch {
		case g > 0.9:
			want, name = analysis.PhaseInPhase, "In Phase"
		case g > 0.5:
			want, name = analysis.PhaseMostlyInPhase, "Mostly In Phase"
		case g > -0.5:
			want, name = analysis.PhasePartiallyCorrelated, "Partially Correlated"
		case g > -0.9:
			want, name = analysis.PhaseMostlyOutOfPhase, "Mostly Out of Phase"
		}
		if st != want || st.String() != name {
			t.Fatalf("a correlation of %v is called %v", g, st)
		}
	}
	t.Nontrivial(count >= 3)
}

// pearson also reports whether the value is numerically sure.
func pearson(l, r []float64) (float64, bool) {
	n := float64(len(l))
	var ml, mr, sl, sr float64
	for i := range l {
		ml += l[i] / n
		mr += r[i] / n
	}
	cl, cr := true, true
	for i := range l {
		sl += l[i] * l[i]
		sr += r[i] * r[i]
		cl = cl && l[i] == l[0]
		cr = cr && r[i] == r[0]
	}
	if cl || cr {
		if cl && cr {
			return 1, true
		}
	}
	var c, vl, vr float64
	for i := range l {
		a, b := l[i]-ml, r[i]-mr
		c += a * b
		vl += a * a
		vr += b * b
	}
	if cl {
		return 0, vr > 1e-12*sr && vr > 1e-200
	}
	if cr {
		return 0, vl > 1e-12*sl && vl > 1e-200
	}
	return math.Max(-1, math.Min(1, c/math.Sqrt(vl)/math.Sqrt(vr))), vl > 1e-12*sl && vr > 1e-12*sr && vl > 1e-200 && vr > 1e-200
}

func field(t *T) {
	bm := analysis.NewBalanceMeter(64)
	wm := analysis.NewStereoWidthMeter(64)
	n := t.Size(2, 40, 20000, "window")
	cm := analysis.NewCorrelationMeter(n, 48000)
	fa := analysis.NewStereoFieldAnalyzer(n, 48000)
	var pl, pr, pm, ps float64
	kind := t.Int(0, 9, "sides")
	for s := t.Size(1, 12, 72, "steps"); s > 0; s-- {
		l, r := stereo(t, t.Size(0, 60, 20000, "n"))
		for i := range l {
			switch kind { // mono, antiphase, or on one side throughout
			case 0:
				r[i] = l[i]
			case 1:
				r[i] = -l[i]
			case 2:
				l[i] = 0
			case 3:
				r[i] = 0
			}
		}
		bm.Process(l, r)
		wm.Process(l, r)
		cm.Process(l, r)
		fa.Process(l, r)
		if len(l) > 0 {
			var a, b, c, d float64
			k := float64(len(l))
			for i := range l {
				a += l[i] * l[i] / k
				b += r[i] * r[i] / k
				c += (l[i] + r[i]) * (l[i] + r[i]) / 4 / k
				d += (l[i] - r[i]) * (l[i] - r[i]) / 4 / k
			}
			pl, pr = 0.95*pl+0.05*a, 0.95*pr+0.05*b
			pm, ps = 0.95*pm+0.05*c, 0.95*ps+0.05*d
		}
		bal := 0.0
		if pl+pr > 0 {
			bal = (pr - pl) / (pl + pr)
		}
		if g := bm.GetBalance(); !(math.Abs(g-bal) <= 1e-9) {
			t.Fatalf("the balance is %v, expected %v", g, bal)
		}
		if g := bm.GetBalanceDB(); !ratioDB(g, pr, pl, 0) {
			t.Fatalf("the balance of %v against %v is %v dB", pr, pl, g)
		}
		w := 0.0
		if pm+ps > 0 {
			w = math.Sqrt(ps / pm)
		}
		if g := wm.GetWidth(); !(Close(g, w, 1e-9, 1e-7) || pm < 1e-9*ps && g > 1e4) {
			t.Fatalf("the width is %v, expected %v", g, w)
		}
		if g := wm.GetWidthDB(); pm > 1e-9*ps && ps > 1e-9*pm || ps == 0 || pm == 0 {
			if !ratioDB(g, ps, pm, math.Inf(-1)) {
				t.Fatalf("the width of side %v against mid %v is %v dB", ps, pm, g)
			}
		}
		a := fa.GetAnalysis()
		if a.Balance != bm.GetBalance() || a.Width != wm.GetWidth() || a.WidthDB != wm.GetWidthDB() ||
			a.Correlation != cm.GetCorrelation() || a.MonoCompatibility != cm.GetMonoCompatibility() || a.PhaseStatus != cm.GetPhaseStatus() {
			t.Fatalf("the analyzer reports %+v, its meters alone %v %v %v %v", a, bm.GetBalance(), wm.GetWidth(), wm.GetWidthDB(), cm.GetCorrelation())
		}
	}
	t.Nontrivial(pl > 0 && pr > 0)
}

func ratioDB(db, a, b, none float64) bool {
	switch {
	case a > 0 && b > 0:
		return Close(db, 10*math.Log10(a/b), 1e-6, 1e-6)
	case a > 0:
		return math.IsInf(db, 1)
	case b > 0:
		return math.IsInf(db, -1)
	}
	return db == none
}

type pt struct{ l, r, x, y, b float64 }

func scope(t *T) {
	n := t.Int(1, 60, "size")
	vector := t.Bool("vector scope")
	var ps *analysis.PhaseScope
	var vs *analysis.VectorScope
	mode, scale, decay := analysis.ModeLissajous, 1.0, 0.95
	if vector {
		vs = analysis.NewVectorScope(n)
		mode = analysis.ModeGoniometer
	} else {
		ps = analysis.NewPhaseScope(n)
	}
	var ring []pt
	total := 0
	t.Desc("size %d vector %v:", n, vector)
	var old, oldWas []analysis.PhasePoint
	var oldB, oldBWas []float64
	for s := t.Size(1, 12, 72, "steps"); s > 0; s-- {
		op := t.Int(0, 9, "op")
		if vector && op < 3 {
			op = 9
		}
		switch op {
		case 0:
			mode = analysis.PhaseScopeMode(t.Int(0, 2, "mode"))
			ps.SetMode(mode)
			t.Desc(" mode %d", mode)
		case 1:
			v := Pick(t, "sc", t.U(-0.5, 3, "scale"), t.LogU(1e-5, 1e3, "scale2"), 0)
			ps.SetScale(v)
			if v > 0 {
				scale = v
			}
			t.Desc(" scale %v", v)
		case 2:
			v := Pick(t, "d", t.U(-0.2, 1.2, "decay"), t.U(-0.2, 1.2, "decay2"), 0, 1)
			ps.SetDecay(v)
			if v >= 0 && v <= 1 {
				decay = v
			}
			ps.SetPersistence(t.U(-0.2, 1.2, "persistence"))
			t.Desc(" decay %v", v)
		case 3:
			if t.Bool("really") {
				if vector {
					vs.Reset()
				} else {
					ps.Reset()
				}
				ring = nil
				t.Desc(" reset")
			}
		case 4:
			a, b := make([]float64, 3), make([]float64, 2)
			if vector {
				vs.Process(a, b)
			} else {
				ps.Process(a, b)
			}
		default:
			l, r := stereo(t, t.Size(0, 2*n, 20000, "n"))
			if vector {
				vs.Process(l, r)
			} else {
				ps.Process(l, r)
			}
			for i := range ring {
				ring[i].b *= decay
			}
			for i := range l {
				p := pt{l[i], r[i], l[i] * scale, r[i] * scale, 1}
				if mode == analysis.ModeGoniometer {
					p.x, p.y = scale*(r[i]-l[i])/math.Sqrt2, scale*(l[i]+r[i])/math.Sqrt2
				}
				ring = append(ring, p)
				total++
			}
			ring = ring[max(0, len(ring)-n):]
		}
		var pts []analysis.PhasePoint
		var br []float64
		var st analysis.PhaseScopeStats
		if vector {
			var grid []analysis.PhasePoint
			var labels []analysis.VectorScopeLabel
			pts, br, grid, labels = vs.GetDisplay()
			graticule(t, grid, labels)
			st = vs.GetStatistics()
		} else {
			pts, br = ps.GetPoints()
			st = ps.GetStatistics()
		}
		for i := range old {
			if old[i] != oldWas[i] || oldB[i] != oldBWas[i] {
				t.Fatalf("the points handed out before changed from %v to %v", oldWas[i], old[i])
			}
		}
		old, oldWas, oldB, oldBWas = pts, Clone(pts), br, Clone(br)
		if len(pts) != len(ring) || len(br) != len(ring) {
			t.Fatalf("%d points and %d brightnesses, expected %d", len(pts), len(br), len(ring))
		}
		var sm, ss, mr, sc, sn, k float64
		for i, p := range ring {
			e := 1e-12 * (1 + math.Abs(p.x) + math.Abs(p.y))
			if !(math.Abs(pts[i].X-p.x) <= e) || !(math.Abs(pts[i].Y-p.y) <= e) || !Close(br[i], p.b, 0, 1e-9) {
				t.Fatalf("point %d is %v with brightness %v, expected %v,%v with %v", i, pts[i], br[i], p.x, p.y, p.b)
			}
			sm += math.Abs(p.l+p.r) / 2
			ss += math.Abs(p.l-p.r) / 2
			mr = math.Max(mr, math.Hypot(p.l, p.r))
			if q := p.l*p.l + p.r*p.r; q > 0 {
				sc += (p.l*p.l - p.r*p.r) / q
				sn += 2 * p.l * p.r / q
				k++
			}
		}
		if c := float64(len(ring)); c > 0 {
			sm, ss = sm/c, ss/c
		}
		if !Close(st.AverageMid, sm, 1e-12, 1e-9) || !Close(st.AverageSide, ss, 1e-12, 1e-9) || !Close(st.MaxRadius, mr, 0, 1e-9) {
			t.Fatalf("mid, side and radius are %v, %v and %v, expected %v, %v and %v", st.AverageMid, st.AverageSide, st.MaxRadius, sm, ss, mr)
		}
		switch {
		case sm > 1e-9*ss && !Close(st.Width, ss/sm, 1e-9, 1e-6), sm == 0 && ss > 0 && !math.IsInf(st.Width, 1), sm == 0 && ss == 0 && st.Width != 0:
			t.Fatalf("the width of mid %v and side %v is %v", sm, ss, st.Width)
		}
		if k == 0 {
			if st.PhaseConcentration != 0 || st.DominantAngle != 0 {
				t.Fatalf("silence has a concentration of %v at %v", st.PhaseConcentration, st.DominantAngle)
			}
		} else {
			c := math.Hypot(sc, sn) / k
			if !(math.Abs(st.PhaseConcentration-c) <= 1e-6) || !(st.PhaseConcentration <= 1) {
				t.Fatalf("the concentration is %v, expected %v", st.PhaseConcentration, c)
			}
			if d := 2*st.DominantAngle - math.Atan2(sn, sc); c > 1e-3 && !(math.Abs(math.Remainder(d, 2*math.Pi)) <= 1e-6) || !(math.Abs(st.DominantAngle) <= math.Pi/2+1e-9) {
				t.Fatalf("the dominant angle is %v, expected %v", st.DominantAngle, math.Atan2(sn, sc)/2)
			}
		}
		if !vector {
			rad, ang, b := ps.GetPolarData()
			if len(rad) != len(ring) || len(ang) != len(ring) || len(b) != len(ring) {
				t.Fatalf("%d, %d and %d polar values, expected %d", len(rad), len(ang), len(b), len(ring))
			}
			for i, p := range ring {
				x, y := rad[i]*math.Cos(ang[i]), rad[i]*math.Sin(ang[i])
				e := 1e-12 * (1 + math.Hypot(p.l, p.r)*scale)
				if !(rad[i] >= 0) || !(math.Abs(x-p.l*scale) <= e) || !(math.Abs(y-p.r*scale) <= e) || b[i] != br[i] {
					t.Fatalf("polar point %d is %v at %v, expected %v,%v", i, rad[i], ang[i], p.l*scale, p.r*scale)
				}
			}
			continue
		}
		_, _, grid, labels := vs.GetDisplay()
		for _, p := range grid {
			if !(math.Hypot(p.X, p.Y) <= 1+1e-9) {
				t.Fatalf("grid point %v lies outside", p)
			}
		}
		// where a channel alone appears is the side its label is on
		for _, lb := range labels {
			switch lb.Text {
			case "L":
				if !(lb.Position.X < 0) {
					t.Fatalf("L is at %v", lb.Position)
				}
			case "R":
				if !(lb.Position.X > 0) {
					t.Fatalf("R is at %v", lb.Position)
				}
			case "M":
				if lb.Position.X != 0 || !(lb.Position.Y > 0) {
					t.Fatalf("M is at %v", lb.Position)
				}
			}
		}
	}
	t.Nontrivial(total > n)
}

// graticule checks the grid of a vector scope: five circles up to full scale,
// spokes all around, and a label at each end of both axes.
func graticule(t *T, grid []analysis.PhasePoint, labels []analysis.VectorScopeLabel) {
	circles := map[int]int{}
	spokes := map[int]bool{}
	var cx, cy float64
	for i, p := range grid {
		r := math.Hypot(p.X, p.Y)
		k := math.Round(r * 5)
		if !(math.Abs(r*5-k) <= 1e-9) || k > 5 {
			t.Fatalf("grid point %d at %v is on no circle", i, p)
		}
		circles[int(k)]++
		cx, cy = cx+p.X, cy+p.Y
		if k == 0 && i+1 < len(grid) {
			q := grid[i+1]
			a := math.Atan2(q.Y, q.X) * 6 / math.Pi
			if !(math.Abs(a-math.Round(a)) <= 1e-9) || !(math.Abs(math.Hypot(q.X, q.Y)-1) <= 1e-9) {
				t.Fatalf("a spoke ends at %v", q)
			}
			spokes[int(math.Round(a)+12)%12] = true
		}
	}
	if len(spokes) != 12 || len(circles) != 6 || math.Hypot(cx, cy) > 1e-6 {
		t.Fatalf("%d spokes, circles %v, centroid %v, %v", len(spokes), circles, cx, cy)
	}
	at := map[string]analysis.PhasePoint{}
	for _, l := range labels {
		at[l.Text] = l.Position
	}
	for text, p := range map[string]analysis.PhasePoint{"M": {X: 0, Y: 1}, "S": {X: 0, Y: -1}, "L": {X: -1, Y: 0}, "R": {X: 1, Y: 0}} {
		if q, ok := at[text]; !ok || q != p {
			t.Fatalf("label %s at %v", text, q)
		}
	}
}
