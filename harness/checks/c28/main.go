// C28: the audio path does not allocate.
package main

import (
	"fmt"
	"runtime"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"

	"vst3verif/procs"
	"vst3verif/vk"
)

var kinds = append(append([]procs.Kind{}, procs.All...), procs.Meters...)

// step is one call of the audio thread. check is run after it, unmeasured.
type step struct {
	what string
	fn   func()
	free bool // allowed to allocate
}

// measure runs the steps and returns the number of allocations in each.
func measure(steps []step, out []uint64) {
	var a, b runtime.MemStats
	for i, s := range steps {
		if s.free {
			s.fn()
			continue
		}
		runtime.ReadMemStats(&a)
		s.fn()
		runtime.ReadMemStats(&b)
		out[i] = b.Mallocs - a.Mallocs
	}
}

// never makes the steps several times over and fails if one allocates every
// time: what the runtime itself allocates now and then does not repeat.
func never(t *vk.T, make func() []step) {
	const runs = 5
	var least []uint64
	var names []step
	for r := 0; r < runs; r++ {
		steps := make()
		got := __make(len(steps))
		measure(steps, got)
		if least == nil {
			least, names = got, steps
		}
		any := false
		for i := range least {
			if got[i] < least[i] {
				least[i] = got[i]
			}
			any = any || least[i] > 0
		}
		if !any {
			return
		}
	}
	for i, n := range least {
		if n > 0 {
			t.Fatalf("step %d, %s, allocates %d times", i, names[i].what, n)
		}
	}
}

func __make(n int) []uint64 { return make([]uint64, n) }

func draw(t *vk.T) (v procs.V) {
	for i := range v {
		v[i] = t.U(0, 1, "v")
	}
	return
}

func processors(t *vk.T) {
	k := kinds[t.Int(0, len(kinds)-1, "processor")]
	t.Class(k.Name)
	sr := t.Rate("sr")
	cv := draw(t)
	t.Desc("%s %g %.2v", k.Name, sr, cv)
	l := k.New(sr, cv)
	type ev struct {
		set, run int
		v        procs.V
		x, y     []float32
	}
	var evs []ev
	for n := t.Int(2, 12, "events"); n > 0; n-- {
		if t.Int(0, 9, "reset") == 0 && l.Reset != nil {
			t.Desc(" reset")
			evs = append(evs, ev{set: -1, run: -1})
			continue
		}
		if t.Bool("set") && len(l.Set) > 0 {
			e := ev{set: t.Int(0, len(l.Set)-1, "setting"), run: -1, v: draw(t)}
			t.Desc(" %s%.3v", l.Set[e.set].Name, e.v)
			evs = append(evs, e)
			continue
		}
		n := t.Int(1, 300, "samples")
		if t.Int(0, 9, "long") == 0 {
			n = procs.MaxBlock
		}
		e := ev{set: -1, run: t.Int(0, len(l.Run)-1, "mode"), x: t.Signal(n, t.LogU(1e-3, 2, "amp"), "x"), y: t.Signal(n, t.LogU(1e-3, 2, "amp"), "y")}
		t.Desc(" %s/%s", l.Run[e.run].Group, l.Run[e.run].Name)
		evs = append(evs, e)
		t.Nontrivial(true)
	}
	never(t, func() (steps []step) {
		l := k.New(sr, cv)
		for _, e := range evs {
			e := e
			if e.run < 0 && e.set < 0 {
				steps = append(steps, step{what: k.Name + ": a reset", fn: l.Reset})
				continue
			}
			if e.run < 0 {
				s := l.Set[e.set]
				steps = append(steps, step{what: fmt.Sprintf("%s: setting %s to %v", k.Name, s.Name, e.v), fn: func() { s.Fn(e.v) }, free: s.Resize})
				continue
			}
			m := l.Run[e.run]
			x, y := vk.Clone(e.x), vk.Clone(e.y)
			steps = append(steps, step{what: fmt.Sprintf("%s: %d samples through %s/%s", k.Name, len(x), m.Group, m.Name), fn: func() { m.Fn(x, y) }})
			if len(l.Read) > 0 {
				steps = append(steps, step{what: k.Name + ": reading its levels", fn: func() {
					for _, r := range l.Read {
						if !r.Copy {
							r.Fn()
						}
					}
				}})
			}
		}
		return
	})
}

// nobody handles events.
type nobody struct{}

func (nobody) ProcessEvent(midi.Event) {}

// functions: the plain functions on samples and buffers.
func functions(t *vk.T) {
	n := t.Int(1, 300, "samples")
	x, y, z := t.Signal(n, 1, "x"), t.Signal(n, 1, "y"), make([]float32, n)
	a, b := t.U(0, 1, "a"), t.U(-1, 1, "b")
	k := t.Int(0, 40, "k")
	coeffs := []float64{a, b, a * b}
	tr := dsp.ProcessorType(0)
	det := envelope.NewDetector(48000, envelope.DetectorMode(k%3))
	ty := gain.SoftClip(float32(a), 0.5)
	acc := float64(ty)
	f := float32(a)
	all := []step{
		{what: "buffer clearing, copying and mixing", fn: func() { dsp.Clear(z); dsp.Copy(z, x); dsp.Mix(z, x, y, f) }},
		{what: "fades", fn: func() { gain.Fade(x, f, float32(b)); gain.FadeDb(y, -60*f, 0) }},
		{what: "level conversions", fn: func() {
			acc += gain.LinearToDb(a) + gain.DbToLinear(b) + float64(gain.LinearToDb32(f)+gain.DbToLinear32(f))
		}},
		{what: "interpolation", fn: func() {
			acc += float64(interpolation.Linear(f, 1, f) + interpolation.Cubic(0, f, 1, 0, f) + interpolation.Hermite(0, f, 1, 0, f) + interpolation.Smooth(f, 1, f))
			interpolation.SmoothBuffer(z, 1, f)
		}},
		{what: "resampling", fn: func() {
			acc += float64(interpolation.Resample(x, 0.5+f, z) + interpolation.ResampleCubic(x, 0.5+f, z))
		}},
		{what: "parameter scaling", fn: func() {
			acc += utility.ScaleParameter(a, b, 5) + utility.ScaleParameterExp(a, 20, 2e4) + utility.UnscaleParameter(a, b, 5) + utility.UnscaleParameterExp(100+a, 20, 2e4)
			acc += utility.ClampParameter(b, 0, a) + utility.ScaleParameterWithCurve(a, 0, 5, 2) + utility.QuantizeParameter(a, k) + utility.BipolarToUnipolar(b) + utility.UnipolarToBipolar(a) + utility.SkewParameter(a, 0.3)
		}},
		{what: "waveshaping functions", fn: func() {
			acc += distortion.Sigmoid(b, 5) + distortion.Polynomial(b, coeffs) + distortion.ChebyshevPolynomial(b, k) + distortion.QuantizeToSteps(b, k) + distortion.FoldbackDistortion(b*9, 0.1+a) + distortion.GateEffect(b, a)
		}},
		{what: "white noise", fn: func() { acc += float64(utility.WhiteNoiseSample()); utility.WhiteNoiseBuffer(z) }},
		{what: "side chain detection", fn: func() { det.ProcessSidechain(x, y, z) }},
		{what: "pan gains", fn: func() {
			l, r := pan.MonoToStereo(float32(b), pan.Law(k%3))
			acc += float64(l + r)
		}},
		{what: "a processor's kind", fn: func() { acc += float64(len(tr.String())) }},
	}
	t.Desc("%d samples", n)
	t.Nontrivial(n > 1)
	never(t, func() []step { return all })
}

// context: what a plugin does in its process callback.
func context(t *vk.T) {
	block := t.Int(1, 512, "block")
	ins, outs := t.Int(0, 4, "ins"), t.Int(1, 4, "outs")
	if t.Int(0, 5, "many") == 0 {
		ins, outs = t.Int(0, 32, "many ins"), t.Int(1, 32, "many outs")
	}
	np := t.Int(1, 8, "params")
	type op struct {
		kind, n int
		vals    []float64
	}
	var ops []op
	for n := t.Int(1, 30, "ops"); n > 0; n-- {
		o := op{kind: t.Int(0, 22, "op"), n: t.Int(0, block, "n")}
		k := t.Int(1, 128, "values")
		if o.kind != 12 {
			k = t.Int(1, 3, "values")
		}
		for ; k > 0; k-- {
			o.vals = append(o.vals, t.U(0, 1, "value"))
		}
		t.Desc(" %d(%d)", o.kind, o.n)
		ops = append(ops, o)
	}
	t.Nontrivial(len(ops) > 1)
	never(t, func() (steps []step) {
		reg := param.NewRegistry()
		var ps []*param.Parameter
		for i := 0; i < np; i++ {
			p := param.New(uint32(i), fmt.Sprint("p", i)).Range(-1, float64(i+1)).Steps(int32(i % 3 * 5)).Build()
			ps = append(ps, p)
			if err := reg.Add(p); err != nil {
				panic(err)
			}
		}
		ctx := process.NewContext(block, reg)
		ctx.SampleRate = 48000
		cfg := bus.NewEffectStereo()
		if ins > 2 {
			cfg = bus.NewEffectStereoSidechain()
		}
		multi := process.NewMultiBusContext(ctx, cfg)
		full := func(n int) (b [][]float32) {
			for i := 0; i < n; i++ {
				b = append(b, make([]float32, block))
			}
			return
		}
		fi, fo := full(ins), full(outs)
		ctx.Input, ctx.Output = full(ins), full(outs)
		acc := float32(0)
		sm := param.NewParameterSmoother()
		for i, p := range ps {
			sm.Add(uint32(i), p, param.SmoothingType(i%3), 10)
		}
		var none nobody
		lone := param.NewSmoother(param.LinearSmoothing, 20)
		nums, scale := make([]float32, 32), func(v float64, x float32) float32 { return x * float32(v) }
		each := func(ch int, in, out []float32) {
			for i := range in {
				out[i] = in[i] * 0.5
			}
		}
		mono := func(in, out []float32) { copy(out, in) }
		frame := func(i int, in, out []float32) {
			for c := range out {
				out[c] = float32(i)
				if c < len(in) {
					out[c] += in[c]
				}
			}
		}
		buses := func(i int, ch [][]float32, info *bus.Info) { acc += float32(len(ch)) }
		two := func(in, out [][]float32) { acc += float32(len(in)) }
		three := func(in, side, out [][]float32) { acc += float32(len(side)) }
		for _, o := range ops {
			o := o
			id := uint32(o.n % (np + 1))
			name, fn := "", func() {}
			switch o.kind {
			case 0:
				name, fn = "setting the block", func() {
					for i := range ctx.Input {
						ctx.Input[i] = fi[i][:o.n]
					}
					for i := range ctx.Output {
						ctx.Output[i] = fo[i][:o.n]
					}
				}
			case 1:
				name, fn = "ProcessChannels", func() { ctx.ProcessChannels(each) }
			case 2:
				name, fn = "ProcessStereo", func() { ctx.ProcessStereo(each) }
			case 3:
				name, fn = "ProcessMono", func() { ctx.ProcessMono(mono) }
			case 4:
				name, fn = "ProcessSamples", func() { ctx.ProcessSamples(frame) }
			case 5:
				name, fn = "ProcessChannelsSeparately", func() { ctx.ProcessChannelsSeparately(mono, mono) }
			case 6:
				name, fn = "CopyInputToOutput and PassThrough", func() { ctx.CopyInputToOutput(); ctx.PassThrough() }
			case 7:
				name, fn = "Clear", ctx.Clear
			case 8:
				name, fn = "work buffers", func() {
					w, u := ctx.WorkBuffer(), ctx.TempBuffer()
					for i := range w {
						w[i] = u[i] + 1
					}
				}
			case 9:
				name, fn = "reading parameters", func() { acc += float32(ctx.Param(id) + ctx.ParamPlain(id)) }
			case 10:
				name, fn = "setting parameters", func() {
					p := ps[int(id)%np]
					p.SetValue(o.vals[0])
					p.SetPlainValue(o.vals[0] * 3)
					acc += float32(p.GetValue() + p.GetPlainValue())
				}
			case 11:
				name, fn = "SetParameterAtOffset", func() { ctx.SetParameterAtOffset(id, o.vals[0], o.n) }
			case 12:
				name, fn = fmt.Sprintf("a block with %d parameter changes", len(o.vals)), func() {
					ctx.ResetParameterChanges()
					for i, v := range o.vals {
						ctx.AddParameterChange(uint32(i%(np+1)), v, int(v*1000))
					}
					ctx.SortParameterChanges()
					for _, c := range ctx.GetParameterChanges() {
						ctx.ApplyParameterChange(c)
					}
					acc += float32(len(ctx.GetParameterChanges()))
				}
			case 13:
				name, fn = "smoothed parameters", func() {
					for i := 0; i < o.n; i++ {
						acc += float32(sm.GetSmoothed(id))
					}
					sm.UpdateAll()
				}
			case 14:
				name, fn = "transport", func() {
					tr := ctx.Transport
					tr.HasTempo, tr.Tempo, tr.HasMusicalTime, tr.HasTimeSignature, tr.HasBarPosition = true, 120, true, true, true
					tr.TimeSigNumerator, tr.TimeSigDenominator, tr.ProjectTimeMusic = 4, 4, float64(o.n)
					_, b := tr.GetBarsBeats()
					acc += float32(b + tr.GetSamplesPerBeat(48000) + tr.GetBeatPosition())
					_ = tr.IsOnBeat(0.1)
				}
			case 15:
				name, fn = "bus access", func() {
					acc += float32(len(multi.GetMainInput()) + len(multi.GetMainOutput()) + len(multi.GetSidechainInput()) + len(multi.GetInputBus(1)) + len(multi.GetOutputBus(1)))
				}
			case 16:
				name, fn = "bus callbacks", func() {
					multi.ProcessInputBuses(buses)
					multi.ProcessOutputBuses(buses)
					multi.ProcessMainBuses(two)
					multi.ProcessWithSidechain(three)
				}
			case 17:
				name, fn = "bus copies", func() { multi.ClearAllOutputs(); multi.PassThroughAll() }
			case 18:
				name, fn = "clearing events", func() { ctx.ClearInputEvents(); ctx.ClearOutputEvents(); ctx.ClearAllEvents() }
			case 19:
				name, fn = "counts", func() {
					acc += float32(ctx.NumSamples() + ctx.NumInputChannels() + ctx.NumOutputChannels() + ctx.GetNumChannels() + ctx.GetNumStereoChannels())
				}
			case 20:
				name, fn = "bus descriptions", func() {
					acc += float32(multi.NumInputBuses() + multi.NumOutputBuses())
					for i := 0; i < 3; i++ {
						if in, out := multi.GetInputBusInfo(i), multi.GetOutputBusInfo(i); in != nil && out != nil {
							acc += float32(in.ChannelCount + out.ChannelCount)
						}
					}
					acc += float32(cfg.GetActiveInputChannelCount() + cfg.GetActiveOutputChannelCount())
				}
			case 21:
				name, fn = "an empty event queue", func() {
					if ctx.HasInputEvents() || ctx.HasParameterChanges() {
						acc++
					}
					ctx.ProcessEvents(none, 0, int32(o.n))
					acc += float32(len(ctx.GetOutputEvents()) + len(ctx.GetInputEvents(0, int32(o.n))))
				}
			case 22:
				name, fn = "smoother lookups", func() {
					if s, ok := sm.Get(id); ok {
						acc += float32(s.GetSmoothedValue())
					}
					lone.SetTarget(o.vals[0])
					for lone.IsSmoothing() && acc < 1e6 {
						acc += float32(lone.Next()) + 1
					}
					lone.Process(nums, scale)
					if p := reg.Get(id); p != nil {
						acc += float32(p.Denormalize(p.Normalize(o.vals[0])))
					}
					acc += float32(reg.Count())
				}
			}
			steps = append(steps, step{what: name, fn: fn})
		}
		return
	})
}

func main() {
	runtime.MemProfileRate = 0
	vk.Main(vk.Check{ID: "C28", Subs: []vk.Sub{
		{Name: "processors", Rule: "a processor or meter of any kind, a history of settings and blocks through drawn entry points; the heap allocations in every processing call, and every setting that does not resize, are counted; a case whose count is not zero is repeated on new instances and fails if the same step allocates each time. Non-trivial: audio was processed", Quick: 15000, Thorough: 400000, Fn: processors},
		{Name: "context", Rule: "a plugin's process callback as a drawn sequence of context calls: block views, per-channel, per-frame and per-bus processing, work buffers, parameters, up to 128 automation points, smoothing and transport. Non-trivial: two or more calls", Quick: 15000, Thorough: 400000, Fn: context},
		{Name: "functions", Rule: "the plain functions on samples and buffers: fades, conversions, interpolation, resampling, scaling, waveshaping, noise, detection from a side chain. Non-trivial: more than one sample", Quick: 3000, Thorough: 60000, Fn: functions},
	}, Assumptions: []string{
		"Reading MIDI events, note handling in the voice allocator, and settings that change the size of a buffer are outside the audio path of this property: they copy or allocate by design.",
		"More than 128 automation points in one block, more than 32 channels, and loudness programmes longer than the pre-allocated history may grow a buffer.",
		"Heap allocations are counted by the Go runtime, so what the compiler keeps on the stack does not count.",
	}})
}
