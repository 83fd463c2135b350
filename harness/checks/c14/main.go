// C14: parameters, registries and meters may be used from several threads.
package main

import (
	"fmt"
	"math"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"vst3verif/conc"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C14",
		Subs: []Sub{
			{Name: "values", Quick: 2000, Thorough: 15000, Fn: conc.Values,
				Rule: "1-3 threads write drawn increasing sequences of values to shared parameters, normalized or plain, while others read them directly, through the processing context, as text and through saved states; every value read was written (or the first one), those of a parameter with one writer never go backwards, and the last written ones remain; under the race detector. Non-trivial: a read returned a value from the middle of a sequence"},
			{Name: "registration", Quick: 2000, Thorough: 15000, Fn: conc.Registration,
				Rule: "2-4 threads register parameters with automatic, explicit, reserved and repeated ids while others list and look up; every listing is a complete beginning of the final one, ids are unique, reserved ranges hold only what asked for them, every success is found and one of several claims to an id wins; under the race detector. Non-trivial: a listing saw part of the parameters"},
			{Name: "meters", Quick: 2500, Thorough: 20000, Fn: meters,
				Rule: "one thread feeds a meter or analyzer a drawn sequence of blocks, settings and resets while two others read it; every reading must be the one after some step between the last finished before and the last begun after it, taken from a twin fed alone; under the race detector. Non-trivial: a reading from the middle of the sequence"},
			{Name: "settings", Quick: 2500, Thorough: 20000, Fn: settings,
				Rule: "one thread feeds a meter or analyzer while two others change every setting and reset it and one more reads; nothing panics or races, and once all is done, the same last settings, a reset and a block give the readings of a meter that was only ever used alone; under the race detector. Non-trivial: a setting changed in the middle of the feeding"},
		},
		Assumptions: []string{"parameters are not replaced by name while others read their ids", "signal processors other than meters and analyzers belong to one thread at a time"},
	})
}

// meter is an analyzer with its steps and its readings.
type meter struct {
	name  string
	steps []func(l, r []float64, v float64) // the first feeds audio
	reads []func() []float64
}

func one(fns ...func() float64) (rs []func() []float64) {
	for _, f := range fns {
		rs = append(rs, func() []float64 { return []float64{f()} })
	}
	return
}

func makers(win, ch int) []func() meter {
	return []func() meter{
		func() meter {
			m := analysis.NewPeakMeter(48000)
			return meter{"peak meter", []func(l, r []float64, v float64){func(l, _ []float64, _ float64) { m.Process(l) }, func(_, _ []float64, v float64) { m.SetHoldTime(v / 100) }, func(_, _ []float64, v float64) { m.SetDecayRate(v * 1000) }, func(_, _ []float64, _ float64) { m.Reset() }},
				one(m.GetPeak, m.GetPeakDB, m.GetHold, m.GetHoldDB)}
		},
		func() meter {
			m := analysis.NewRMSMeter(win)
			return meter{"RMS meter", []func(l, r []float64, v float64){func(l, _ []float64, _ float64) { m.Process(l) }, func(_, _ []float64, _ float64) { m.Reset() }},
				one(m.GetRMS, m.GetRMSDB)}
		},
		func() meter {
			m := analysis.NewLUFSMeter(100, ch) // windows of 40 and 300 frames
			return meter{"loudness meter", []func(l, r []float64, v float64){func(l, _ []float64, _ float64) { m.Process(l[:len(l)/ch*ch]) }, func(_, _ []float64, _ float64) { m.Reset() }},
				one(m.GetMomentaryLUFS, m.GetShortTermLUFS, m.GetIntegratedLUFS, m.GetLoudnessRange)}
		},
		func() meter {
			m := analysis.NewCorrelationMeter(win, 48000)
			return meter{"correlation meter", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }, func(_, _ []float64, v float64) { m.SetAveraging(v) }, func(_, _ []float64, v float64) { m.SetPeakHoldTime(v / 100) }, func(_, _ []float64, _ float64) { m.Reset() }},
				one(m.GetCorrelation, m.GetPeakHold, m.GetMonoCompatibility, func() float64 { return float64(m.GetPhaseStatus()) })}
		},
		func() meter {
			m := analysis.NewBalanceMeter(win)
			return meter{"balance meter", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }}, one(m.GetBalance, m.GetBalanceDB)}
		},
		func() meter {
			m := analysis.NewStereoWidthMeter(win)
			return meter{"width meter", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }}, one(m.GetWidth, m.GetWidthDB)}
		},
		func() meter {
			m := analysis.NewStereoFieldAnalyzer(win, 48000)
			a := m.GetAnalysis
			return meter{"stereo field analyzer", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }},
				one(func() float64 { return a().Correlation }, func() float64 { return a().Balance }, func() float64 { return a().Width }, func() float64 { return a().WidthDB }, func() float64 { return a().MonoCompatibility }, func() float64 { return float64(a().PhaseStatus) })}
		},
		func() meter {
			m := analysis.NewPhaseScope(win)
			return meter{"phase scope", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }, func(_, _ []float64, v float64) { m.SetMode(analysis.PhaseScopeMode(int(v * 2.99))) }, func(_, _ []float64, v float64) { m.SetDecay(v) }, func(_, _ []float64, v float64) { m.SetScale(v * 3) }, func(_, _ []float64, v float64) { m.SetPersistence(v) }, func(_, _ []float64, _ float64) { m.Reset() }},
				[]func() []float64{func() (o []float64) {
					p, b := m.GetPoints()
					for i := range p {
						o = append(o, p[i].X, p[i].Y, b[i])
					}
					return
				}, func() (o []float64) {
					x, y, z := m.GetPolarData()
					return append(append(append(o, x...), y...), z...)
				}, func() []float64 {
					s := m.GetStatistics()
					return []float64{s.AverageMid, s.AverageSide, s.Width, s.MaxRadius, s.PhaseConcentration, s.DominantAngle}
				}}}
		},
		func() meter {
			m := analysis.NewVectorScope(win)
			return meter{"vector scope", []func(l, r []float64, v float64){func(l, r []float64, _ float64) { m.Process(l, r) }, func(_, _ []float64, _ float64) { m.Reset() }},
				[]func() []float64{func() (o []float64) {
					p, b, _, _ := m.GetDisplay()
					for i := range p {
						o = append(o, p[i].X, p[i].Y, b[i])
					}
					return
				}, func() []float64 {
					s := m.GetStatistics()
					return []float64{s.AverageMid, s.AverageSide, s.Width, s.MaxRadius, s.PhaseConcentration, s.DominantAngle}
				}}}
		},
		func() meter {
			m := analysis.NewSpectrumAnalyzer(64, 48000, analysis.HannWindow)
			return meter{"spectrum analyzer", []func(l, r []float64, v float64){func(l, _ []float64, _ float64) { m.Process(l) }, func(_, _ []float64, v float64) { m.SetHopSize(1 + int(v*63)) },
				func(_, _ []float64, v float64) { m.SetAveraging(analysis.AveragingMode(int(v*3.99)), 3) }, func(_, _ []float64, v float64) { m.SetSmoothing(v) }, func(_, _ []float64, v float64) { m.SetFrequencyRange(v*5000, 20000) }, func(_, _ []float64, _ float64) { m.Reset() }},
				[]func() []float64{m.GetSpectrum, m.GetSpectrumDB, m.GetSpectrumInRange, m.GetSpectrumDBInRange,
					func() []float64 { f, a := m.GetPeakFrequency(); return []float64{f, a} },
					func() []float64 { return []float64{m.GetBandEnergy(500, 5000)} },
					func() []float64 { return m.GetOctaveBands([]float64{1000, 4000}) }}}
		},
	}
}

func bits(x []float64) string {
	b := make([]byte, 0, 8*len(x))
	for _, v := range x {
		u := math.Float64bits(v)
		if v != v {
			u = math.Float64bits(math.NaN())
		}
		for i := 0; i < 64; i += 8 {
			b = append(b, byte(u>>i))
		}
	}
	return string(b)
}

func meters(t *T) {
	win, ch := t.Int(1, 60, "window"), t.Int(1, 2, "channels")
	mk := makers(win, ch)
	mk1 := mk[t.Int(0, len(mk)-1, "meter")]
	m, twin := mk1(), mk1()
	t.Class(m.name)
	type step struct {
		what int
		l, r []float64
		v    float64
	}
	var steps []step
	wide := func(x []float32) (o []float64) {
		for _, v := range x {
			o = append(o, float64(v))
		}
		return
	}
	t.Desc("%s", m.name)
	for n := t.Int(3, 30, "steps"); n > 0; n-- {
		s := step{v: t.U(0, 1, "v")}
		if t.Int(0, 3, "other") == 0 {
			s.what = t.Int(0, len(m.steps)-1, "step")
		}
		if s.what == 0 {
			k := t.Int(1, 120, "samples")
			s.l, s.r = wide(t.Signal(k, 1, "l")), wide(t.Signal(k, 1, "r"))
		}
		steps = append(steps, s)
	}
	// states[i][k]: reading k after i steps
	var states [][]string
	snap := func() {
		var row []string
		for _, f := range twin.reads {
			row = append(row, bits(f()))
		}
		states = append(states, row)
	}
	snap()
	for _, s := range steps {
		twin.steps[s.what](s.l, s.r, s.v)
		snap()
	}
	var begun, finished atomic.Int32
	var mid atomic.Bool
	every := t.Int(0, 4, "yield")
	feed := func() string {
		for i, s := range steps {
			begun.Add(1)
			m.steps[s.what](s.l, s.r, s.v)
			finished.Add(1)
			conc.Pause(every, i)
		}
		return ""
	}
	reader := func(off int) func() string {
		return func() string {
			for it := off; ; it++ {
				k := it % len(m.reads)
				lo := finished.Load()
				x := m.reads[k]()
				hi := begun.Load()
				good := false
				b := bits(x)
				for i := lo; i <= hi; i++ {
					if states[i][k] == b {
						good = true
						break
					}
				}
				if !good {
					return fmt.Sprintf("reading %d of the %s, taken between steps %d and %d of %d, is %v: not the reading of any state in between", k, m.name, lo, hi, len(steps), head(x))
				}
				if lo > 0 && int(hi) < len(steps) {
					mid.Store(true)
				}
				if int(lo) == len(steps) && it-off > len(m.reads) {
					return ""
				}
			}
		}
	}
	if msg := conc.Together(feed, reader(0), reader(t.Int(0, 5, "offset"))); msg != "" {
		t.Fatalf("%s", msg)
	}
	t.Nontrivial(mid.Load())
}

func head(x []float64) []float64 {
	if len(x) > 8 {
		return x[:8]
	}
	return x
}

// settings has one thread feed a meter, one set it and one read it.
func settings(t *T) {
	win, ch := t.Int(1, 60, "window"), t.Int(1, 2, "channels")
	mk := makers(win, ch)
	mk1 := mk[t.Int(0, len(mk)-1, "meter")]
	m, twin := mk1(), mk1()
	if len(m.steps) < 2 {
		return
	}
	t.Class(m.name)
	wide := func(x []float32) (o []float64) {
		for _, v := range x {
			o = append(o, float64(v))
		}
		return
	}
	k := t.Int(1, 120, "samples")
	l, r := wide(t.Signal(k, 1, "l")), wide(t.Signal(k, 1, "r"))
	type set struct {
		what int
		v    float64
	}
	var sets []set
	last := make([]float64, len(m.steps))
	for n := t.Int(3, 25, "settings"); n > 0; n-- {
		s := set{t.Int(1, len(m.steps)-1, "what"), t.U(0, 1, "v")}
		sets = append(sets, s)
	}
	for i := range last {
		last[i] = t.U(0.05, 0.95, "last") // accepted by every setting
	}
	blocks := t.Int(3, 25, "blocks")
	every := t.Int(0, 4, "yield")
	t.Desc("%s: %d blocks of %d, %d settings", m.name, blocks, k, len(sets))
	var fed atomic.Int32
	var done atomic.Int32
	var mid atomic.Bool
	if msg := conc.Together(func() string {
		defer done.Add(1)
		for i := 0; i < blocks; i++ {
			m.steps[0](l, r, 0)
			fed.Add(1)
			conc.Pause(every, i)
		}
		return ""
	}, func() string {
		defer done.Add(1)
		for i := range sets {
			s := sets[len(sets)-1-i]
			m.steps[s.what](nil, nil, s.v)
			conc.Pause(every, i)
		}
		return ""
	}, func() string {
		defer done.Add(1)
		for i := range sets {
			s := sets[len(sets)-1-i]
			m.steps[s.what](nil, nil, s.v)
			conc.Pause(every, i)
		}
		return ""
	}, func() string {
		defer done.Add(1)
		for i, s := range sets {
			m.steps[s.what](nil, nil, s.v)
			if n := fed.Load(); n > 0 && int(n) < blocks {
				mid.Store(true)
			}
			conc.Pause(every, i)
		}
		return ""
	}, func() string {
		for it := 0; done.Load() < 3; it++ {
			_ = m.reads[it%len(m.reads)]()
			conc.Pause(2, it)
		}
		return ""
	}); msg != "" {
		t.Fatalf("%s: %s", m.name, msg)
	}
	for _, x := range []meter{m, twin} { // the last step is the reset
		for i := 1; i < len(x.steps); i++ {
			x.steps[i](nil, nil, last[i])
		}
		x.steps[0](l, r, 0)
	}
	for i := range m.reads {
		if a, b := m.reads[i](), twin.reads[i](); bits(a) != bits(b) {
			t.Fatalf("reading %d of the %s after a reset is %v, that of one used alone %v", i, m.name, head(a), head(b))
		}
	}
	t.Nontrivial(mid.Load())
}
