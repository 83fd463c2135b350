// Package procs describes every signal processor of the library in one form, so
// that properties of all of them can be checked alike.
package procs

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// V carries drawn numbers for a setting, 0 to 1 for settings in their range,
// other values for settings out of it.
type V [4]float64

// Lin maps number i to lo..hi.
func (v V) Lin(i int, lo, hi float64) float64 { return lo + (hi-lo)*v[i] }

// Log maps number i to lo..hi evenly in log scale.
func (v V) Log(i int, lo, hi float64) float64 {
	return math.Exp(math.Log(lo) + (math.Log(hi)-math.Log(lo))*v[i])
}

// Int maps number i to lo..hi.
func (v V) Int(i, lo, hi int) int {
	k := lo + int(math.Floor(v[i]*float64(hi-lo+1)))
	if v[i] >= 0 && v[i] <= 1 && k > hi {
		k = hi
	}
	return k
}

// Bool maps number i.
func (v V) Bool(i int) bool { return v[i] >= 0.5 }

// Setter is one setting.
type Setter struct {
	Name   string
	Fn     func(v V)
	Resize bool // may allocate or drop what is stored, as sizes do
}

// Mode is one way to process a block in place. Modes of one group must give the same result.
type Mode struct {
	Group, Name string
	Stereo      bool
	Fn          func(l, r []float32)
}

// Live is an instance.
type Live struct {
	Set   []Setter
	Run   []Mode
	Reset func()
	Read  []Reading
}

// Reading is a value an instance reports about itself.
type Reading struct {
	Name string
	Fn   func() float64
	Copy bool // hands out a copy, or is for a display
}

func (l *Live) read(name string, fn func() float64) {
	l.Read = append(l.Read, Reading{Name: name, Fn: fn})
}
func (l *Live) copied(name string, fn func() int) {
	l.Read = append(l.Read, Reading{Name: name, Fn: func() float64 { return float64(fn()) }, Copy: true})
}
func (l *Live) flag(name string, fn func() bool) {
	l.read(name, func() float64 {
		if fn() {
			return 1
		}
		return 0
	})
}

func (l *Live) set(name string, fn func(v V)) { l.Set = append(l.Set, Setter{Name: name, Fn: fn}) }
func (l *Live) resize(name string, fn func(v V)) {
	l.Set = append(l.Set, Setter{Name: name, Fn: fn, Resize: true})
}
func (l *Live) mono(group, name string, fn func(x []float32)) {
	l.Run = append(l.Run, Mode{Group: group, Name: name, Fn: func(l, _ []float32) { fn(l) }})
}
func (l *Live) each(group string, fn func(x float32) float32) {
	l.mono(group, "sample", func(x []float32) {
		for i := range x {
			x[i] = fn(x[i])
		}
	})
}
func (l *Live) stereo(group, name string, fn func(a, b []float32)) {
	l.Run = append(l.Run, Mode{Group: group, Name: name, Stereo: true, Fn: fn})
}
func (l *Live) pair(group string, fn func(a, b float32) (float32, float32)) {
	l.stereo(group, "frame", func(a, b []float32) {
		for i := range a {
			a[i], b[i] = fn(a[i], b[i])
		}
	})
}

// inOut adds a buffer mode with separate output, and in place.
func (l *Live) inOut(group string, fn func(in, out []float32)) {
	tmp := make([]float32, MaxBlock)
	l.mono(group, "in place", func(x []float32) { fn(x, x) })
	l.mono(group, "buffer", func(x []float32) {
		o := tmp[:len(x)]
		fn(x, o)
		copy(x, o)
	})
}
func (l *Live) inOut2(group string, fn func(a, b, c, d []float32)) {
	ta, tb := make([]float32, MaxBlock), make([]float32, MaxBlock)
	l.stereo(group, "in place", func(a, b []float32) { fn(a, b, a, b) })
	l.stereo(group, "buffer", func(a, b []float32) {
		o, p := ta[:len(a)], tb[:len(a)]
		fn(a, b, o, p)
		copy(a, o)
		copy(b, p)
	})
}

// d64 adds the modes of a processor for float64 samples.
func (l *Live) d64(one func(x float64) float64, block func(in, out []float64), two func(a, b, c, d []float64)) {
	l.each("mono", func(x float32) float32 { return float32(one(float64(x))) })
	t := [4][]float64{}
	for i := range t {
		t[i] = make([]float64, MaxBlock)
	}
	load := func(k int, x []float32) []float64 {
		b := t[k][:len(x)]
		for i := range x {
			b[i] = float64(x[i])
		}
		return b
	}
	save := func(k int, x []float32) {
		for i := range x {
			x[i] = float32(t[k][i])
		}
	}
	l.mono("mono", "block", func(x []float32) { block(load(0, x), t[1][:len(x)]); save(1, x) })
	l.mono("mono", "in place", func(x []float32) { b := load(0, x); block(b, b); save(0, x) })
	l.stereo("stereo", "block", func(a, b []float32) {
		two(load(0, a), load(1, b), t[2][:len(a)], t[3][:len(a)])
		save(2, a)
		save(3, b)
	})
	l.stereo("stereo", "in place", func(a, b []float32) {
		p, q := load(0, a), load(1, b)
		two(p, q, p, q)
		save(0, a)
		save(1, b)
	})
}

// MaxBlock is the longest block.
const MaxBlock = 2048

// Kind is a type of processor.
type Kind struct {
	Name   string
	New    func(sr float64, v V) *Live
	Random bool // draws unseeded random numbers
}

// All lists every kind.
var All []Kind

func reg(name string, fn func(sr float64, v V) *Live) { All = append(All, Kind{Name: name, New: fn}) }
func regRandom(name string, fn func(sr float64, v V) *Live) {
	All = append(All, Kind{Name: name, New: fn, Random: true})
}

// Find returns the kind of that name.
func Find(name string) Kind {
	for _, k := range All {
		if k.Name == name {
			return k
		}
	}
	panic(name)
}

func init() {
	reg("biquad", func(sr float64, _ V) *Live {
		l := &Live{}
		b := filter.NewBiquad(2)
		freq := func(v V) float64 { return v.Log(0, 10, sr*0.49) }
		q := func(v V) float64 { return v.Log(1, 0.1, 20) }
		g := func(v V) float64 { return v.Lin(2, -24, 24) }
		l.set("lowpass", func(v V) { b.SetLowpass(sr, freq(v), q(v)) })
		l.set("highpass", func(v V) { b.SetHighpass(sr, freq(v), q(v)) })
		l.set("bandpass", func(v V) { b.SetBandpass(sr, freq(v), q(v)) })
		l.set("notch", func(v V) { b.SetNotch(sr, freq(v), q(v)) })
		l.set("allpass", func(v V) { b.SetAllpass(sr, freq(v), q(v)) })
		l.set("peak", func(v V) { b.SetPeakingEQ(sr, freq(v), q(v), g(v)) })
		l.set("lowshelf", func(v V) { b.SetLowShelf(sr, freq(v), v.Log(1, 0.1, 1), g(v)) })
		l.set("highshelf", func(v V) { b.SetHighShelf(sr, freq(v), v.Log(1, 0.1, 1), g(v)) })
		l.stereo("two", "channels", func(x, y []float32) { b.Process(x, 0); b.Process(y, 1) })
		bufs := make([][]float32, 2)
		l.stereo("two", "multi", func(x, y []float32) { bufs[0], bufs[1] = x, y; b.ProcessMulti(bufs) })
		l.mono("one", "channel", func(x []float32) { b.Process(x, 0) })
		l.Reset = b.Reset
		return l
	})
	reg("svf", func(sr float64, _ V) *Live {
		l := &Live{}
		s := filter.NewSVF(2)
		l.set("frequency", func(v V) { s.SetFrequency(sr, v.Log(0, 10, sr*0.49)) })
		l.set("q", func(v V) { s.SetQ(v.Log(0, 0.1, 50)) })
		l.set("both", func(v V) { s.SetFrequencyAndQ(sr, v.Log(0, 10, sr*0.49), v.Log(1, 0.1, 50)) })
		two := func(g string, fn func(x []float32, ch int), pick func(o filter.SVFOutputs) float32) {
			l.stereo(g, "buffer", func(x, y []float32) { fn(x, 0); fn(y, 1) })
			l.stereo(g, "samples", func(x, y []float32) {
				for i := range x {
					x[i] = pick(s.ProcessSample(x[i], 0))
					y[i] = pick(s.ProcessSample(y[i], 1))
				}
			})
		}
		two("lowpass", s.ProcessLowpass, func(o filter.SVFOutputs) float32 { return o.Lowpass })
		two("highpass", s.ProcessHighpass, func(o filter.SVFOutputs) float32 { return o.Highpass })
		two("bandpass", s.ProcessBandpass, func(o filter.SVFOutputs) float32 { return o.Bandpass })
		two("notch", s.ProcessNotch, func(o filter.SVFOutputs) float32 { return o.Notch })
		two("mixed", func(x []float32, ch int) { s.ProcessMixed(x, ch, 0.5, 0.25, -0.5, 1) },
			func(o filter.SVFOutputs) float32 {
				return 0.5*o.Lowpass + 0.25*o.Highpass - 0.5*o.Bandpass + o.Notch
			})
		l.Reset = s.Reset
		return l
	})
	reg("multimode svf", func(sr float64, _ V) *Live {
		l := &Live{}
		s := filter.NewMultiModeSVF(2)
		l.set("both", func(v V) { s.SetFrequencyAndQ(sr, v.Log(0, 10, sr*0.49), v.Log(1, 0.1, 50)) })
		l.set("mode", func(v V) { s.SetMode(v.Lin(0, 0, 1)) })
		l.stereo("two", "buffer", func(x, y []float32) { s.Process(x, 0); s.Process(y, 1) })
		l.Reset = s.Reset
		return l
	})
	reg("compressor", func(sr float64, _ V) *Live {
		l := &Live{}
		c := dynamics.NewCompressor(sr)
		l.read("gain reduction", c.GetGainReduction)
		l.set("threshold", func(v V) { c.SetThreshold(v.Lin(0, -60, 0)) })
		l.set("ratio", func(v V) { c.SetRatio(v.Log(0, 1, 100)) })
		l.set("attack", func(v V) { c.SetAttack(v.Log(0, 1e-4, 0.5)) })
		l.set("release", func(v V) { c.SetRelease(v.Log(0, 1e-3, 2)) })
		l.set("knee", func(v V) { c.SetKnee(dynamics.KneeType(v.Int(0, 0, 1)), v.Lin(1, 0, 24)) })
		l.set("makeup", func(v V) { c.SetMakeupGain(v.Lin(0, -12, 24)) })
		l.resize("lookahead", func(v V) { c.SetLookahead(v.Lin(0, 0, 0.01)) })
		l.each("mono", c.Process)
		l.inOut("mono", c.ProcessBuffer)
		l.inOut2("stereo", c.ProcessStereo)
		tmp := make([]float32, MaxBlock)
		l.stereo("sidechain", "buffer", func(x, y []float32) {
			c.ProcessSidechain(x, y, tmp[:len(x)])
			copy(x, tmp)
		})
		l.stereo("sidechain", "in place", func(x, y []float32) { c.ProcessSidechain(x, y, x) })
		l.Reset = c.Reset
		return l
	})
	reg("expander", func(sr float64, _ V) *Live {
		l := &Live{}
		c := dynamics.NewExpander(sr)
		l.read("gain reduction", c.GetGainReduction)
		l.set("threshold", func(v V) { c.SetThreshold(v.Lin(0, -60, 0)) })
		l.set("ratio", func(v V) { c.SetRatio(v.Log(0, 1, 100)) })
		l.set("attack", func(v V) { c.SetAttack(v.Lin(0, 0, 0.5)) })
		l.set("release", func(v V) { c.SetRelease(v.Lin(0, 0, 2)) })
		l.set("knee", func(v V) { c.SetKnee(v.Lin(0, 0, 24)) })
		l.set("range", func(v V) { c.SetRange(v.Lin(0, -100, 0)) })
		l.each("mono", c.Process)
		l.inOut("mono", c.ProcessBuffer)
		l.inOut2("stereo", c.ProcessStereo)
		l.Reset = c.Reset
		return l
	})
	reg("gate", func(sr float64, _ V) *Live {
		l := &Live{}
		c := dynamics.NewGate(sr)
		l.read("gain reduction", c.GetGainReduction)
		l.flag("open", c.IsOpen)
		l.read("state", func() float64 { s := c.GetState(); return float64(len(s)) + float64(s[0]) })
		l.set("threshold", func(v V) { c.SetThreshold(v.Lin(0, -60, 0)) })
		l.set("hysteresis", func(v V) { c.SetHysteresis(v.Lin(0, 0, 20)) })
		l.set("attack", func(v V) { c.SetAttack(v.Lin(0, 0, 0.1)) })
		l.set("hold", func(v V) { c.SetHold(v.Lin(0, 0, 0.05)) })
		l.set("release", func(v V) { c.SetRelease(v.Lin(0, 0, 0.5)) })
		l.set("range", func(v V) { c.SetRange(v.Lin(0, -100, 0)) })
		l.set("filter", func(v V) { c.SetSidechainFilter(v.Bool(0), v.Log(1, 20, 2000)) })
		l.each("mono", c.Process)
		l.inOut("mono", c.ProcessBuffer)
		l.inOut2("stereo", c.ProcessStereo)
		l.Reset = c.Reset
		return l
	})
	reg("limiter", func(sr float64, _ V) *Live {
		l := &Live{}
		c := dynamics.NewLimiter(sr)
		l.read("gain reduction", c.GetGainReduction)
		l.set("threshold", func(v V) { c.SetThreshold(v.Lin(0, -30, 0)) })
		l.set("release", func(v V) { c.SetRelease(v.Log(0, 1e-3, 2)) })
		l.set("true peak", func(v V) { c.SetTruePeak(v.Bool(0)) })
		l.resize("lookahead", func(v V) { c.SetLookahead(v.Lin(0, 0, 0.01)) })
		l.each("mono", c.Process)
		l.inOut("mono", c.ProcessBuffer)
		l.inOut2("stereo", c.ProcessStereo)
		l.Reset = c.Reset
		return l
	})
	reg("delay line", func(sr float64, v V) *Live {
		l := &Live{}
		max := v.Log(0, 0.002, 0.05)
		d := delay.New(max, sr)
		n := 1.0
		l.set("delay", func(v V) { n = v.Lin(0, 0, max*sr*1.1) })
		l.each("samples", func(x float32) float32 { return d.Process(x, n) })
		l.mono("samples", "buffer", func(x []float32) { d.ProcessBuffer(x, n) })
		l.each("ms", func(x float32) float32 { return d.ProcessMs(x, n*1000/sr) })
		l.mono("mix", "buffer", func(x []float32) { d.ProcessBufferMix(x, n, 0.3) })
		l.mono("write", "tap", func(x []float32) {
			for i := range x {
				y := d.Tap(n)
				d.Write(x[i])
				x[i] = y
			}
		})
		l.Reset = d.Reset
		return l
	})
	reg("allpass delay", func(sr float64, v V) *Live {
		l := &Live{}
		max := v.Log(0, 0.002, 0.05)
		d := delay.NewAllpass(max, sr)
		n := 1.0
		l.set("delay", func(v V) { n = v.Lin(0, 1, max*sr) })
		l.set("feedback", func(v V) { d.SetFeedback(float32(v.Lin(0, -0.95, 0.95))) })
		l.each("mono", func(x float32) float32 { return d.Process(x, n) })
		l.mono("mono", "buffer", func(x []float32) { d.ProcessBuffer(x, n) })
		l.Reset = d.Reset
		return l
	})
	reg("comb delay", func(sr float64, v V) *Live {
		l := &Live{}
		max := v.Log(0, 0.002, 0.05)
		d := delay.NewComb(max, sr)
		n := 1.0
		l.set("delay", func(v V) { n = v.Lin(0, 1, max*sr) })
		l.set("feedback", func(v V) { d.SetFeedback(float32(v.Lin(0, -0.95, 0.95))) })
		l.set("damp", func(v V) { d.SetDamp(float32(v.Lin(0, 0, 1))) })
		l.each("mono", func(x float32) float32 { return d.Process(x, n) })
		l.mono("mono", "buffer", func(x []float32) { d.ProcessBuffer(x, n) })
		l.Reset = d.Reset
		return l
	})
	reg("multitap delay", func(sr float64, v V) *Live {
		l := &Live{}
		max := v.Log(0, 0.002, 0.05)
		d := delay.NewMultiTap(max, sr, v.Int(1, 1, 4))
		taps := make([]delay.TapOutput, 3)
		l.set("tap", func(v V) {
			taps[((v.Int(0, 0, 2)%3)+3)%3] = delay.TapOutput{DelaySamples: v.Lin(1, 0, max*sr), Gain: float32(v.Lin(2, -1, 1)), Pan: float32(v.Lin(3, -1, 1))}
		})
		l.pair("two", func(a, b float32) (x, y float32) { d.ProcessMultiTap(a, taps, &x, &y); return })
		l.Reset = d.Reset
		return l
	})
	reg("modulated delay", func(sr float64, v V) *Live {
		l := &Live{}
		d := delay.NewModulated(v.Log(0, 0.02, 0.1), sr)
		l.set("lfo", func(v V) { d.SetLFO(v.Log(0, 0.01, 20), v.Lin(1, 0, 10)) })
		l.set("center", func(v V) { d.SetCenterDelay(v.Lin(0, 0, 30)) })
		l.each("mono", d.Process)
		l.mono("mono", "buffer", d.ProcessBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("reverb damping", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewDampingFilter()
		l.set("damping", func(v V) { d.SetDamping(v.Lin(0, 0, 1)) })
		l.each("mono", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("reverb comb", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewCombFilter(v.Int(0, 1, 200))
		l.set("feedback", func(v V) { d.SetFeedback(v.Lin(0, 0, 0.98)) })
		l.set("damping", func(v V) { d.SetDamping(v.Lin(0, 0, 1)) })
		l.each("mono", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("reverb allpass", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewAllPassFilter(v.Int(0, 1, 200))
		l.set("feedback", func(v V) { d.SetFeedback(v.Lin(0, 0, 0.95)) })
		l.each("mono", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("schroeder", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewSchroeder(sr)
		l.set("room", func(v V) { d.SetRoomSize(v.Lin(0, 0, 1)) })
		l.set("damping", func(v V) { d.SetDamping(v.Lin(0, 0, 1)) })
		l.set("wet", func(v V) { d.SetWetLevel(v.Lin(0, 0, 1)) })
		l.set("dry", func(v V) { d.SetDryLevel(v.Lin(0, 0, 1)) })
		l.set("width", func(v V) { d.SetWidth(v.Lin(0, 0, 1)) })
		l.each("mono", d.Process)
		l.pair("stereo", d.ProcessStereo)
		l.Reset = d.Reset
		return l
	})
	reg("freeverb", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewFreeverb(sr)
		l.set("room", func(v V) { d.SetRoomSize(v.Lin(0, 0, 1)) })
		l.set("damping", func(v V) { d.SetDamping(v.Lin(0, 0, 1)) })
		l.set("wet", func(v V) { d.SetWetLevel(v.Lin(0, 0, 1)) })
		l.set("dry", func(v V) { d.SetDryLevel(v.Lin(0, 0, 1)) })
		l.set("width", func(v V) { d.SetWidth(v.Lin(0, 0, 1)) })
		l.set("mode", func(v V) { d.SetMode(v.Lin(0, 0, 1)) })
		l.set("preset", func(v V) {
			[]func(){d.SetPresetSmallRoom, d.SetPresetMediumHall, d.SetPresetLargeHall, d.SetPresetCathedral}[((v.Int(0, 0, 3)%4)+4)%4]()
		})
		l.each("mono", d.Process)
		l.pair("stereo", d.ProcessStereo)
		l.Reset = d.Reset
		return l
	})
	reg("fdn", func(sr float64, v V) *Live {
		l := &Live{}
		d := reverb.NewFDN([]int{4, 8, 16, 6, 1, 3}[v.Int(0, 0, 5)], sr)
		l.set("decay", func(v V) { d.SetDecay(v.Lin(0, 0, 1)) })
		l.set("damping", func(v V) { d.SetDamping(v.Lin(0, 0, 1)) })
		l.set("diffusion", func(v V) { d.SetDiffusion(v.Lin(0, 0, 1)) })
		l.set("modulation", func(v V) { d.SetModulation(v.Lin(0, 0, 1)) })
		l.set("wet", func(v V) { d.SetWetLevel(v.Lin(0, 0, 1)) })
		l.set("dry", func(v V) { d.SetDryLevel(v.Lin(0, 0, 1)) })
		l.set("preset", func(v V) {
			[]func(){d.SetPresetSmallRoom, d.SetPresetMediumHall, d.SetPresetLargeHall, d.SetPresetCathedral}[((v.Int(0, 0, 3)%4)+4)%4]()
		})
		l.each("mono", d.Process)
		l.pair("stereo", d.ProcessStereo)
		l.Reset = d.Reset
		return l
	})
	crusher := func(dither bool) func(sr float64, v V) *Live {
		return func(sr float64, v V) *Live {
			l := &Live{}
			d := distortion.NewBitcrusher(sr)
			l.set("depth", func(v V) { d.SetBitDepth(v.Lin(0, 1, 32)) })
			l.set("reduction", func(v V) { d.SetSampleRateReduction(v.Log(0, 1, 100)) })
			l.set("antialias", func(v V) { d.SetAntiAlias(v.Bool(0)) })
			l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
			l.set("output", func(v V) { d.SetOutput(v.Lin(0, 0, 2)) })
			if dither {
				l.set("dither", func(v V) { d.SetDither(distortion.DitherType(v.Int(0, 0, 2))) })
			}
			l.d64(d.Process, d.ProcessBlock, d.ProcessStereo)
			l.Reset = d.Reset
			return l
		}
	}
	reg("bitcrusher", crusher(false))
	regRandom("dithered bitcrusher", crusher(true))
	regRandom("tape", func(sr float64, v V) *Live {
		l := &Live{}
		d := distortion.NewTapeSaturation(sr)
		l.set("saturation", func(v V) { d.SetSaturation(v.Lin(0, 0, 1)) })
		l.set("compression", func(v V) { d.SetCompression(v.Lin(0, 0, 1)) })
		l.set("flutter", func(v V) { d.SetFlutter(v.Lin(0, 0, 1)) })
		l.set("warmth", func(v V) { d.SetWarmth(v.Lin(0, 0, 1)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("output", func(v V) { d.SetOutput(v.Lin(0, 0, 2)) })
		l.d64(d.Process, d.ProcessBlock, d.ProcessStereo)
		l.Reset = d.Reset
		return l
	})
	reg("tube", func(sr float64, v V) *Live {
		l := &Live{}
		d := distortion.NewTubeSaturation()
		l.set("warmth", func(v V) { d.SetWarmth(v.Lin(0, 0, 1)) })
		l.set("harmonics", func(v V) { d.SetHarmonics(v.Lin(0, 0, 1)) })
		l.set("bias", func(v V) { d.SetBias(v.Lin(0, -1, 1)) })
		l.set("hysteresis", func(v V) { d.SetHysteresis(v.Lin(0, 0, 1)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("output", func(v V) { d.SetOutput(v.Lin(0, 0, 2)) })
		l.d64(d.Process, d.ProcessBlock, d.ProcessStereo)
		l.Reset = d.Reset
		return l
	})
	reg("waveshaper", func(sr float64, v V) *Live {
		l := &Live{}
		d := distortion.NewWaveshaper()
		l.set("curve", func(v V) { d.SetCurveType(distortion.CurveType(v.Int(0, 0, 6))) })
		l.set("drive", func(v V) { d.SetDrive(v.Log(0, 1, 100)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("output", func(v V) { d.SetOutput(v.Lin(0, 0, 2)) })
		l.set("asymmetry", func(v V) { d.SetAsymmetry(v.Lin(0, -1, 1)) })
		l.d64(d.Process, d.ProcessBlock, d.ProcessStereo)
		l.Reset = func() {}
		return l
	})
	reg("chorus", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewChorus(sr)
		l.set("rate", func(v V) { d.SetRate(v.Log(0, 0.01, 10)) })
		l.set("depth", func(v V) { d.SetDepth(v.Lin(0, 0, 10)) })
		l.set("delay", func(v V) { d.SetDelay(v.Lin(0, 1, 50)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("feedback", func(v V) { d.SetFeedback(v.Lin(0, 0, 0.5)) })
		l.set("spread", func(v V) { d.SetSpread(v.Lin(0, 0, 1)) })
		l.resize("voices", func(v V) { d.SetVoices(v.Int(0, 1, 4)) })
		l.pair("mono", func(a, _ float32) (float32, float32) { return d.Process(a) })
		ta, tb := make([]float32, MaxBlock), make([]float32, MaxBlock)
		l.stereo("mono", "buffer", func(a, b []float32) {
			d.ProcessBuffer(a, ta[:len(a)], tb[:len(a)])
			copy(a, ta)
			copy(b, tb)
		})
		l.pair("stereo", d.ProcessStereo)
		l.inOut2("stereo", d.ProcessStereoBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("flanger", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewFlanger(sr)
		l.set("rate", func(v V) { d.SetRate(v.Log(0, 0.01, 20)) })
		l.set("depth", func(v V) { d.SetDepth(v.Lin(0, 0, 10)) })
		l.set("delay", func(v V) { d.SetDelay(v.Lin(0, 0.1, 10)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("feedback", func(v V) { d.SetFeedback(v.Lin(0, -0.99, 0.99)) })
		l.set("manual", func(v V) { d.SetManual(v.Lin(0, 0, 1)) })
		l.set("manual mode", func(v V) { d.SetManualMode(v.Bool(0)) })
		l.each("mono", d.Process)
		l.inOut("mono", d.ProcessBuffer)
		l.pair("stereo", d.ProcessStereo)
		l.inOut2("stereo", d.ProcessStereoBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("phaser", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewPhaser(sr)
		l.set("rate", func(v V) { d.SetRate(v.Log(0, 0.01, 10)) })
		l.set("depth", func(v V) { d.SetDepth(v.Lin(0, 0, 1)) })
		l.set("center", func(v V) { d.SetCenterFrequency(v.Log(0, 100, 4000)) })
		l.set("range", func(v V) { d.SetFrequencyRange(v.Log(0, 20, 2000), v.Log(1, 200, 10000)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("feedback", func(v V) { d.SetFeedback(v.Lin(0, -0.99, 0.99)) })
		l.resize("stages", func(v V) { d.SetStages(v.Int(0, 2, 8)) })
		l.each("mono", d.Process)
		l.inOut("mono", d.ProcessBuffer)
		l.pair("stereo", d.ProcessStereo)
		l.inOut2("stereo", d.ProcessStereoBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("phaser allpass", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewAllPassFilter()
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 10, sr*0.45), sr) })
		l.each("mono", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("ring modulator", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewRingModulator(sr)
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 0.1, sr/2)) })
		l.set("mix", func(v V) { d.SetMix(v.Lin(0, 0, 1)) })
		l.set("waveform", func(v V) { d.SetWaveform(modulation.Waveform(v.Int(0, 0, 3))) })
		l.set("lfo", func(v V) { d.EnableLFO(v.Bool(0)) })
		l.set("lfo rate", func(v V) { d.SetLFORate(v.Log(0, 0.01, 20)) })
		l.set("lfo depth", func(v V) { d.SetLFODepth(v.Lin(0, 0, 1)) })
		l.each("mono", d.Process)
		l.inOut("mono", d.ProcessBuffer)
		l.pair("stereo", d.ProcessStereo)
		l.inOut2("stereo", d.ProcessStereoBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("tremolo", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewTremolo(sr)
		l.read("gain", d.GetCurrentGain)
		l.set("rate", func(v V) { d.SetRate(v.Log(0, 0.01, 20)) })
		l.set("depth", func(v V) { d.SetDepth(v.Lin(0, 0, 1)) })
		l.set("waveform", func(v V) { d.SetWaveform(modulation.Waveform(v.Int(0, 0, 4))) })
		l.set("mode", func(v V) { d.SetMode(modulation.TremoloMode(v.Int(0, 0, 1))) })
		l.set("stereo", func(v V) { d.SetStereo(v.Bool(0)) })
		l.set("phase", func(v V) { d.SetStereoPhase(v.Lin(0, 0, 1)) })
		l.set("smoothing", func(v V) { d.EnableSmoothing(v.Bool(0)) })
		l.each("mono", d.Process)
		l.inOut("mono", d.ProcessBuffer)
		l.pair("stereo", d.ProcessStereo)
		l.inOut2("stereo", d.ProcessStereoBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("lfo", func(sr float64, v V) *Live {
		l := &Live{}
		d := modulation.NewLFO(sr)
		l.read("phase", d.GetPhase)
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 0.01, 20)) })
		l.set("waveform", func(v V) { d.SetWaveform(modulation.Waveform(v.Int(0, 0, 4))) })
		l.set("depth", func(v V) { d.SetDepth(v.Lin(0, 0, 1)) })
		l.set("offset", func(v V) { d.SetOffset(v.Lin(0, -1, 1)) })
		l.set("position", func(v V) { d.SetPhase(v.Lin(0, 0, 1)) })
		l.each("mono", func(x float32) float32 { return float32(d.Process()) })
		t := make([]float64, MaxBlock)
		l.mono("mono", "buffer", func(x []float32) {
			d.ProcessBuffer(t[:len(x)])
			for i := range x {
				x[i] = float32(t[i])
			}
		})
		l.Reset = d.Reset
		return l
	})
	reg("detector", func(sr float64, v V) *Live {
		l := &Live{}
		d := envelope.NewDetector(sr, envelope.DetectorMode(v.Int(0, 0, 2)))
		l.read("envelope", func() float64 { return float64(d.GetEnvelope()) })
		l.read("envelope in dB", func() float64 { return float64(d.GetEnvelopeDB()) })
		l.resize("mode", func(v V) { d.SetMode(envelope.DetectorMode(v.Int(0, 0, 2))) })
		l.set("type", func(v V) { d.SetType(envelope.DetectorType(v.Int(0, 0, 2))) })
		l.set("attack", func(v V) { d.SetAttack(v.Lin(0, 0, 0.2)) })
		l.set("release", func(v V) { d.SetRelease(v.Lin(0, 0, 0.5)) })
		l.set("hold", func(v V) { d.SetHold(v.Lin(0, 0, 0.05)) })
		l.resize("window", func(v V) { d.SetRMSWindow(v.Log(0, 0.1, 20)) })
		l.each("mono", d.Detect)
		l.inOut("mono", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("follower", func(sr float64, v V) *Live {
		l := &Live{}
		d := envelope.NewFollower(sr)
		l.set("attack", func(v V) { d.SetAttack(v.Lin(0, 0, 0.2)) })
		l.set("release", func(v V) { d.SetRelease(v.Lin(0, 0, 0.5)) })
		l.each("mono", d.Follow)
		l.inOut("mono", d.Process)
		return l
	})
	reg("adsr", func(sr float64, v V) *Live {
		l := &Live{}
		d := envelope.New(sr)
		l.flag("active", d.IsActive)
		l.read("stage", func() float64 { return float64(d.GetStage()) })
		l.set("adsr", func(v V) { d.SetADSR(v.Lin(0, 0, 0.02), v.Lin(1, 0, 0.02), v.Lin(2, 0, 1), v.Lin(3, 0, 0.02)) })
		l.set("attack", func(v V) { d.SetAttack(v.Lin(0, 0, 0.1)) })
		l.set("decay", func(v V) { d.SetDecay(v.Lin(0, 0, 0.1)) })
		l.set("sustain", func(v V) { d.SetSustain(v.Lin(0, 0, 1)) })
		l.set("release", func(v V) { d.SetRelease(v.Lin(0, 0, 0.1)) })
		l.set("trigger", func(v V) { d.Trigger() })
		l.set("let go", func(v V) { d.Release() })
		l.each("gain", func(x float32) float32 { return x * d.Next() })
		l.mono("gain", "buffer", d.ProcessMultiply)
		l.each("level", func(float32) float32 { return d.Next() })
		l.mono("level", "buffer", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("ar", func(sr float64, v V) *Live {
		l := &Live{}
		d := envelope.NewAR(sr)
		l.set("attack", func(v V) { d.SetAttack(v.Lin(0, 0, 0.1)) })
		l.set("release", func(v V) { d.SetRelease(v.Lin(0, 0, 0.1)) })
		l.set("trigger", func(v V) { d.Trigger() })
		l.set("let go", func(v V) { d.Release() })
		l.each("gain", func(x float32) float32 { return x * d.Next() })
		l.mono("gain", "buffer", d.ProcessMultiply)
		l.each("level", func(float32) float32 { return d.Next() })
		l.mono("level", "buffer", d.Process)
		return l
	})
	reg("oscillator", func(sr float64, v V) *Live {
		l := &Live{}
		d := oscillator.New(sr)
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 1, sr*0.49)) })
		l.set("position", func(v V) { d.SetPhase(v.Lin(0, 0, 1)) })
		w := 0.5
		l.set("width", func(v V) { w = v.Lin(0, 0, 1) })
		gen := func(g string, one func() float32, buf func(x []float32)) {
			l.each(g, func(float32) float32 { return one() })
			l.mono(g, "buffer", buf)
		}
		gen("sine", d.Sine, d.ProcessSine)
		gen("saw", d.Saw, d.ProcessSaw)
		gen("square", d.Square, d.ProcessSquare)
		gen("triangle", d.Triangle, d.ProcessTriangle)
		gen("pulse", func() float32 { return d.Pulse(w) }, func(x []float32) { d.ProcessPulse(x, w) })
		l.Reset = d.Reset
		return l
	})
	reg("band-limited saw", func(sr float64, v V) *Live {
		l := &Live{}
		d := oscillator.NewBandLimitedSaw(sr)
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 10, sr*0.45)) })
		l.each("mono", func(float32) float32 { return d.Next() })
		l.mono("mono", "buffer", d.Process)
		return l
	})
	reg("blit", func(sr float64, v V) *Live {
		l := &Live{}
		d := oscillator.NewBLIT(sr)
		l.set("frequency", func(v V) { d.SetFrequency(v.Log(0, 10, sr*0.45)) })
		l.each("mono", func(float32) float32 { return d.BLIT() })
		return l
	})
	reg("dc blocker", func(sr float64, v V) *Live {
		l := &Live{}
		d := utility.NewDCBlocker(2, float32(v.Log(0, 1, 100)), sr)
		l.set("cutoff", func(v V) { d.SetCutoff(float32(v.Log(0, 1, 200)), sr) })
		l.pair("two", func(a, b float32) (float32, float32) { return d.Process(a, 0), d.Process(b, 1) })
		l.stereo("two", "buffers", func(a, b []float32) { d.ProcessBuffer(a, 0); d.ProcessBuffer(b, 1) })
		l.stereo("two", "stereo", d.ProcessStereo)
		bufs := make([][]float32, 2)
		l.stereo("two", "multi", func(a, b []float32) { bufs[0], bufs[1] = a, b; d.ProcessMultiChannel(bufs) })
		l.Reset = d.Reset
		return l
	})
	reg("simple dc blocker", func(sr float64, v V) *Live {
		l := &Live{}
		d := utility.NewSimpleDCBlocker(sr)
		l.each("mono", d.Process)
		l.mono("mono", "buffer", d.ProcessBuffer)
		l.Reset = d.Reset
		return l
	})
	reg("noise", func(sr float64, v V) *Live {
		l := &Live{}
		d := utility.NewNoiseGenerator(utility.NoiseType(v.Int(0, 0, 4)))
		d.SetSeed(int64(v[1] * 1e9))
		l.set("type", func(v V) { d.SetType(utility.NoiseType(v.Int(0, 0, 4))) })
		l.resize("seed", func(v V) { d.SetSeed(int64(v[0] * 1e9)) })
		l.each("noise", func(float32) float32 { return d.Next() })
		l.mono("noise", "buffer", d.Generate)
		l.mono("add", "buffer", func(x []float32) { d.GenerateAdd(x, 0.5) })
		l.each("add", func(x float32) float32 { return x + d.Next()*0.5 })
		return l // a reset keeps the random source
	})
	regRandom("gaussian noise", func(sr float64, v V) *Live {
		l := &Live{}
		d := utility.NewGaussianNoise()
		l.each("noise", func(float32) float32 { return d.Next() })
		l.mono("noise", "buffer", d.Generate)
		return l
	})
	regRandom("noise adapter", func(sr float64, v V) *Live {
		l := &Live{}
		d := fdsp.NewNoiseAdapter(utility.NoiseType(v.Int(0, 0, 4)), float32(v.Lin(1, 0, 1)))
		l.set("mix", func(v V) { d.SetMix(float32(v.Lin(0, 0, 1))) })
		l.mono("add", "buffer", d.Process)
		l.Reset = d.Reset
		return l
	})
	reg("utility smoother", func(sr float64, v V) *Live {
		l := &Live{}
		d := utility.NewSmoothParameter(v.Log(0, 1e-3, 0.1), sr)
		l.read("value", d.GetCurrent)
		l.flag("moving", d.IsSmoothing)
		l.set("target", func(v V) { d.SetTarget(v.Lin(0, -1, 1)) })
		l.set("immediate", func(v V) { d.SetImmediate(v.Lin(0, -1, 1)) })
		l.each("mono", func(x float32) float32 { return x * float32(d.Process()) })
		return l
	})
	reg("auto pan", func(sr float64, v V) *Live {
		l := &Live{}
		d := pan.NewAutoPan(1, 0.5, pan.Law(v.Int(0, 0, 2)))
		l.set("rate", func(v V) { d.SetRate(float32(v.Log(0, 0.01, 20))) })
		l.set("depth", func(v V) { d.SetDepth(float32(v.Lin(0, 0, 1))) })
		t := make([]float32, MaxBlock)
		l.stereo("two", "buffer", func(a, b []float32) {
			copy(t, a)
			d.Process(t[:len(a)], float32(sr), a, b)
		})
		l.Reset = d.Reset
		return l
	})
	reg("allpass interpolator", func(sr float64, v V) *Live {
		l := &Live{}
		d := interpolation.NewAllPass()
		f := 0.5
		l.set("fraction", func(v V) { f = v.Lin(0, 0.1, 1) })
		l.each("mono", func(x float32) float32 { return d.Process(x, float32(f)) })
		l.Reset = d.Reset
		return l
	})
	reg("parameter smoother", func(sr float64, v V) *Live {
		l := &Live{}
		ty := param.SmoothingType(v.Int(0, 0, 2))
		rate := func(x float64) float64 {
			if ty == param.ExponentialSmoothing {
				return 0.9 + 0.0999*x
			}
			return 1 + 1000*x
		}
		p := param.New(1, "p").Range(1, 100).Default(10).Build()
		d := param.NewSmoothedParameter(p, ty, rate(v[1]))
		s := param.NewSmoother(ty, rate(v[1]))
		s.Reset(1)
		ps := param.NewParameterSmoother()
		p2 := param.New(1, "q").Range(1, 100).Default(10).Build()
		ps.Add(7, p2, ty, rate(v[1]))
		l.set("value", func(v V) { d.SetValue(v[0]); s.SetTarget(v.Lin(0, 1, 100)); ps.SetValue(7, v[0]) })
		l.set("rate", func(v V) {
			r := rate(math.Max(0, math.Min(1, v[0])))
			d.SetSmoothingRate(r)
			s.SetRate(r)
		})
		l.set("smoothing", func(v V) { d.SetSmoothing(v.Bool(0)); ps.SetSmoothing(7, v.Bool(0)) })
		l.each("mono", func(x float32) float32 {
			return x * float32(d.GetSmoothedValue()+s.Next()+ps.GetSmoothed(7))
		})
		return l
	})
	reg("chain", func(sr float64, v V) *Live {
		l := &Live{}
		gate, comp := dynamics.NewGate(sr), dynamics.NewCompressor(sr)
		par := fdsp.NewParallelChain("p").Add(fdsp.NewDCBlockerAdapter(sr), 0.5).Add(fdsp.NewGateAdapter(gate), 0.5)
		c, err := fdsp.NewBuilder("c").WithProcessor(par).WithProcessor(fdsp.NewCompressorAdapter(comp)).WithFunc("half", func(x []float32) {
			for i := range x {
				x[i] *= 0.5
			}
		}).Build()
		if err != nil {
			panic(err)
		}
		l.set("bypass", func(v V) { c.SetBypass(v.Bool(0)) })
		l.set("parallel bypass", func(v V) { par.SetBypass(v.Bool(0)) })
		l.set("threshold", func(v V) { comp.SetThreshold(v.Lin(0, -60, 0)) })
		par.Process(make([]float32, MaxBlock)) // reaches its size at the first block
		c.Reset()
		l.mono("mono", "buffer", c.Process)
		l.Reset = c.Reset
		return l
	})
	reg("stereo chain", func(sr float64, v V) *Live {
		l := &Live{}
		n := v.Int(1, 1, 40)
		inner := fdsp.NewStereoChain("inner")
		for i := 0; i < n; i++ {
			inner.Add(&swap{g: 1 - 0.3/float32(i+2)})
		}
		c, err := fdsp.NewStereoBuilder("s").WithProcessor(&swap{g: 0.75}).WithProcessor(inner).Build()
		if err != nil {
			panic(err)
		}
		l.set("bypass", func(v V) { c.SetBypass(v.Bool(0)) })
		l.set("inner bypass", func(v V) { inner.SetBypass(v.Bool(0)) })
		l.stereo("stereo", "buffer", c.ProcessStereo)
		l.Reset = c.Reset
		return l
	})
	reg("long chain", func(sr float64, v V) *Live {
		l := &Live{}
		n := v.Int(1, 1, 40)
		c, par := fdsp.NewChain("long"), fdsp.NewParallelChain("p")
		for i := 0; i < n; i++ {
			one := &swap{g: 1 - 0.3/float32(i+2)}
			c.Add(one)
			par.Add(&swap{g: 1 - 0.3/float32(i+2)}, 1/float32(n))
		}
		d, err := fdsp.CreateDynamicsChain(sr)
		if err != nil {
			panic(err)
		}
		s, err := fdsp.CreateSimpleChain(sr)
		if err != nil {
			panic(err)
		}
		c.Add(par).Add(d).Add(s)
		l.set("bypass", func(v V) { c.SetBypass(v.Bool(0)) })
		l.set("parallel bypass", func(v V) { par.SetBypass(v.Bool(0)) })
		l.set("dynamics bypass", func(v V) { d.SetBypass(v.Bool(0)) })
		l.set("simple bypass", func(v V) { s.SetBypass(v.Bool(0)) })
		par.Process(make([]float32, MaxBlock)) // reaches its size at the first block
		c.Reset()
		l.mono("mono", "buffer", c.Process)
		l.Reset = c.Reset
		return l
	})
}

// swap is a one-pole stereo processor that exchanges its channels.
type swap struct{ g, a, b float32 }

func (s *swap) ProcessStereo(l, r []float32) {
	for i := range l {
		s.a += (r[i] - s.a) * s.g
		s.b += (l[i] - s.b) * s.g
		l[i], r[i] = s.a, s.b
	}
}

func (s *swap) Process(x []float32) {
	for i := range x {
		s.a += (x[i] - s.a) * s.g
		x[i] = s.a
	}
}

func (s *swap) Reset() { s.a, s.b = 0, 0 }
