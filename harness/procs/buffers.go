package procs

import (
	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
)

func init() {
	reg("buffer functions", func(sr float64, _ V) *Live {
		l := &Live{}
		a := float32(0.5)
		bal := float32(0)
		law := pan.Linear
		l.set("amount", func(v V) { a = float32(v.Lin(0, 0, 1)) })
		l.set("balance", func(v V) { bal = float32(v.Lin(0, -1, 1)) })
		l.set("law", func(v V) { law = pan.Law(((v.Int(0, 0, 2) % 3) + 3) % 3) })
		t, u := make([]float32, MaxBlock), make([]float32, MaxBlock)
		l.mono("gain", "buffer", func(x []float32) { gain.ApplyBuffer(x, a) })
		l.each("gain", func(x float32) float32 { return gain.Apply(x, a) })
		l.mono("gain", "scale", func(x []float32) { dsp.Scale(x, a) })
		l.mono("gain", "to", func(x []float32) { gain.ApplyBufferTo(x, a, x) })
		l.mono("db", "buffer", func(x []float32) { gain.ApplyDbBuffer(x, bal*24) })
		l.each("db", func(x float32) float32 { return gain.ApplyDb(x, bal*24) })
		l.mono("soft", "buffer", func(x []float32) { gain.SoftClipBuffer(x, 0.1+a*0.8) })
		l.each("soft", func(x float32) float32 { return gain.SoftClip(x, 0.1+a*0.8) })
		l.mono("hard", "buffer", func(x []float32) { gain.HardClipBuffer(x, a) })
		l.each("hard", func(x float32) float32 { return gain.HardClip(x, a) })
		l.mono("hard", "clip", func(x []float32) { dsp.Clip(x, a) })
		l.mono("smooth", "buffer", func(x []float32) { dsp.SoftClip(x, 0.1+a*0.8) })
		l.stereo("mix", "drywet", func(x, y []float32) { mix.DryWetBuffer(x, y, a) })
		l.pair("mix", func(x, y float32) (float32, float32) { return mix.DryWet(x, y, a), y })
		l.stereo("mix", "to", func(x, y []float32) { mix.DryWetBufferTo(x, y, a, x) })
		l.stereo("cross", "buffer", func(x, y []float32) { mix.CrossfadeBuffer(x, y, a, true, x) })
		l.pair("cross", func(x, y float32) (float32, float32) { return mix.CrossfadeCosine(x, y, a), y })
		l.stereo("cross linear", "buffer", func(x, y []float32) { mix.CrossfadeBuffer(x, y, a, false, x) })
		l.pair("cross linear", func(x, y float32) (float32, float32) { return mix.CrossfadeLinear(x, y, a), y })
		two, gains := make([][]float32, 2), make([]float32, 2)
		l.stereo("sum", "sum", func(x, y []float32) {
			two[0], two[1] = x, y
			mix.Sum(two, t[:len(x)])
			copy(x, t)
		})
		l.stereo("sum", "add", func(x, y []float32) { dsp.Add(x, y) })
		l.stereo("weighted", "sum", func(x, y []float32) {
			two[0], two[1], gains[0], gains[1] = x, y, 1, a
			mix.SumWeighted(two, gains, t[:len(x)])
			copy(x, t)
		})
		l.stereo("weighted", "add", func(x, y []float32) { dsp.AddScaled(x, y, a) })
		l.stereo("blend", "blend", func(x, y []float32) { mix.Blend(x, y, bal, x) })
		l.stereo("pan", "stereo", func(x, y []float32) {
			pan.ProcessStereo(x, y, bal, law, t[:len(x)], u[:len(x)])
			copy(x, t)
			copy(y, u)
		})
		l.stereo("width", "width", func(x, y []float32) { pan.Width(x, y, a*2, x, y) })
		l.stereo("balance", "balance", func(x, y []float32) { pan.Balance(x, y, bal, x, y) })
		l.stereo("mono pan", "mono", func(x, y []float32) {
			copy(t, x)
			pan.Process(t[:len(x)], bal, law, x, y)
		})
		l.Reset = func() {}
		return l
	})
	wide := func() func(x []float32, k int) []float64 {
		t := [2][]float64{make([]float64, MaxBlock), make([]float64, MaxBlock)}
		return func(x []float32, k int) []float64 {
			for i := range x {
				t[k][i] = float64(x[i])
			}
			return t[k][:len(x)]
		}
	}
	fill := func(l []float32, v float64) {
		for i := range l {
			l[i] = float32(v)
		}
	}
	_ = fill
	Meters = append(Meters,
		Kind{Name: "peak meter", New: func(sr float64, _ V) *Live {
			l, w := &Live{}, wide()
			m := analysis.NewPeakMeter(sr)
			l.set("hold", func(v V) { m.SetHoldTime(v.Lin(0, 0, 1)) })
			l.set("decay", func(v V) { m.SetDecayRate(v.Lin(0, 1, 60)) })
			l.mono("m", "m", func(x []float32) { m.Process(w(x, 0)); _ = m.GetPeak() + m.GetPeakDB() + m.GetHold() + m.GetHoldDB() })
			l.Reset = m.Reset
			return l
		}},
		Kind{Name: "rms meter", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m := analysis.NewRMSMeter(v.Int(0, 1, 2000))
			l.mono("m", "m", func(x []float32) { m.Process(w(x, 0)); _ = m.GetRMS() + m.GetRMSDB() })
			l.Reset = m.Reset
			return l
		}},
		Kind{Name: "loudness meter", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			ch := v.Int(0, 1, 2)
			m := analysis.NewLUFSMeter(8000, ch)
			m.Process(make([]float64, MaxBlock))
			l.copied("loudness range", func() int { _ = m.GetLoudnessRange(); return 0 })
			l.mono("m", "m", func(x []float32) {
				m.Process(w(x, 0))
				_ = m.GetMomentaryLUFS() + m.GetShortTermLUFS() + m.GetIntegratedLUFS()
			})
			l.Reset = m.Reset
			return l
		}},
		Kind{Name: "correlation meter", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m := analysis.NewCorrelationMeter(v.Int(0, 1, 2000), sr)
			l.set("averaging", func(v V) { m.SetAveraging(v.Lin(0, 0, 1)) })
			l.set("hold", func(v V) { m.SetPeakHoldTime(v.Lin(0, 0, 1)) })
			l.stereo("m", "m", func(x, y []float32) {
				m.Process(w(x, 0), w(y, 1))
				_ = m.GetCorrelation() + m.GetPeakHold() + m.GetMonoCompatibility()
				_ = m.GetPhaseStatus().String()
			})
			l.Reset = m.Reset
			return l
		}},
		Kind{Name: "stereo field", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m := analysis.NewStereoFieldAnalyzer(v.Int(0, 1, 2000), sr)
			l.stereo("m", "m", func(x, y []float32) { m.Process(w(x, 0), w(y, 1)); _ = m.GetAnalysis() })
			return l
		}},
		Kind{Name: "balance and width", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m, n := analysis.NewBalanceMeter(v.Int(0, 1, 2000)), analysis.NewStereoWidthMeter(v.Int(0, 1, 2000))
			l.stereo("m", "m", func(x, y []float32) {
				a, b := w(x, 0), w(y, 1)
				m.Process(a, b)
				n.Process(a, b)
				_ = m.GetBalance() + m.GetBalanceDB() + n.GetWidth() + n.GetWidthDB()
			})
			return l
		}},
		Kind{Name: "phase scope", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m, n := analysis.NewPhaseScope(v.Int(0, 1, 2000)), analysis.NewVectorScope(v.Int(0, 1, 2000))
			l.copied("points", func() int { a, b := m.GetPoints(); return len(a) + len(b) })
			l.copied("polar data", func() int { a, b, c := m.GetPolarData(); return len(a) + len(b) + len(c) })
			l.copied("statistics", func() int { _, _ = m.GetStatistics(), n.GetStatistics(); return 0 })
			l.copied("display", func() int { a, b, c, d := n.GetDisplay(); return len(a) + len(b) + len(c) + len(d) })
			l.set("mode", func(v V) { m.SetMode(analysis.PhaseScopeMode(v.Int(0, 0, 2))) })
			l.set("decay", func(v V) { m.SetDecay(v.Lin(0, 0, 1)) })
			l.set("persistence", func(v V) { m.SetPersistence(v.Lin(0, 0, 1)) })
			l.set("scale", func(v V) { m.SetScale(v.Lin(0, 0.1, 10)) })
			l.stereo("m", "m", func(x, y []float32) {
				a, b := w(x, 0), w(y, 1)
				m.Process(a, b)
				n.Process(a, b)
			})
			l.Reset = func() { m.Reset(); n.Reset() }
			return l
		}},
		Kind{Name: "spectrum analyzer", New: func(sr float64, v V) *Live {
			l, w := &Live{}, wide()
			m := analysis.NewSpectrumAnalyzer([]int{64, 256, 512, 1024, 100, 2}[v.Int(0, 0, 5)], sr, analysis.WindowFunc(v.Int(1, 0, 4)))
			l.copied("spectrum", func() int { return len(m.GetSpectrum()) + len(m.GetSpectrumDB()) })
			l.copied("spectrum in range", func() int { return len(m.GetSpectrumInRange()) + len(m.GetSpectrumDBInRange()) })
			l.copied("peak", func() int { f, _ := m.GetPeakFrequency(); return m.GetBinForFrequency(f) })
			l.copied("bands", func() int {
				return len(m.GetOctaveBands(analysis.StandardOctaveBands())) + len(m.GetOctaveBands(analysis.StandardThirdOctaveBands()))
			})
			l.copied("energy", func() int { _ = m.GetBandEnergy(100, sr); return 0 })
			l.set("hop", func(v V) { m.SetHopSize(v.Int(0, 1, 512)) })
			l.set("smoothing", func(v V) { m.SetSmoothing(v.Lin(0, 0, 1)) })
			l.set("range", func(v V) { m.SetFrequencyRange(v.Log(0, 20, 1000), v.Log(1, 1000, 20000)) })
			l.resize("averaging", func(v V) { m.SetAveraging(analysis.AveragingMode(v.Int(0, 0, 3)), v.Int(1, 1, 8)) })
			l.mono("m", "m", func(x []float32) { m.Process(w(x, 0)) })
			l.Reset = m.Reset
			return l
		}},
		Kind{Name: "levels", New: func(sr float64, v V) *Live {
			l := &Live{}
			l.mono("m", "m", func(x []float32) { _ = dsp.Peak(x) + dsp.RMS(x) })
			l.mono("m", "read", func(x []float32) {
				for i := range x {
					_ = interpolation.Sinc(x, i, 0.3, 8) + interpolation.Lanczos(x, i, 0.3, 3)
				}
			})
			return l
		}},
	)
}

// Meters lists what only measures.
var Meters []Kind
