// C20: delay lines return what was written, exactly that long ago.
package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C20",
		Subs: []Sub{
			{Name: "line", Quick: 25000, Thorough: 200000, Fn: line,
				Rule: "histories of writes, reads, single-sample and buffer processing, mixing and resets with changing whole and fractional delays in samples and milliseconds, from below one sample to beyond the longest delay, against the written history; non-trivial: a fractional delay after the buffer wrapped"},
			{Name: "edges", Quick: 80000, Thorough: 400000, Fn: edges,
				Rule: "delays a rounding error away from whole numbers, at every write position, at and beyond both ends and not a number: no failure, and the value lies between neighbouring samples; non-trivial: a delay within 1e-9 of a whole number"},
			{Name: "comb", Quick: 16000, Thorough: 100000, Fn: comb,
				Rule: "damped feedback combs with settings changed between blocks against the recurrence in double precision, reset included; non-trivial: damping and feedback both on"},
			{Name: "allpass", Quick: 22000, Thorough: 110000, Fn: allpass,
				Rule: "diffusers with settings changed between blocks against the recurrence in double precision; non-trivial: feedback on"},
			{Name: "multitap", Quick: 50000, Thorough: 250000, Fn: multitap,
				Rule: "up to 6 taps with any delay, gain and pan (more taps than configured included) against the written history and the constant-power law; non-trivial: 2 taps or more"},
			{Name: "modulated", Quick: 15000, Thorough: 100000, Fn: modulated,
				Rule: "sine-modulated delays with any rate, depth and center (also deeper than the line) against the written history; non-trivial: depth above zero"},
		},
		Assumptions: []string{"a delay of at least one sample; a shorter one reads the newest sample, a longer one than the line the oldest"},
	})
}

// hist reads the written history with linear interpolation.
type hist []float32

func (h hist) at(k int) float64 { // k samples ago, 1 is the newest
	if i := len(h) - k; i >= 0 && i < len(h) {
		return float64(h[i])
	}
	return 0
}

func (h hist) read(d float64) float64 {
	k := math.Floor(d)
	f := d - k
	if f == 0 {
		return h.at(int(k))
	}
	return h.at(int(k))*(1-f) + h.at(int(k)+1)*f
}

// newLine draws a size and sample rate.
func newSize(t *T) (sec, sr float64, max float64) {
	if t.Big() && t.Int(0, 2, "long line") == 0 { // also longer than 16 bits can count
		sr = t.Rate("sr")
		n := t.LogU(1000, 200000, "long")
		return n / sr, sr, n
	}
	if t.Bool("small") {
		sr = Pick(t, "sr", 1.0, 10, 1000)
		n := t.Int(1, 24, "len")
		return float64(n) / sr, sr, float64(n)
	}
	sr = t.Rate("sr")
	sec = Pick(t, "sec", 0.0005, 0.001, 0.002, t.U(0.0002, 0.004, "secv"), t.U(0.004, 0.03, "secl"))
	return sec, sr, sec * sr
}

func genDelay(t *T, max float64) float64 {
	if max < 1 {
		max = 1
	}
	switch t.Int(0, 5, "delay.kind") {
	case 0:
		return float64(t.Int(1, int(max), "d"))
	case 1:
		return 1
	case 2:
		return max
	case 3:
		return math.Floor(t.U(1, max, "d")*4) / 4
	}
	return t.U(1, max, "d")
}

func near(got float32, want, scale float64) bool {
	return math.Abs(float64(got)-want) <= 2e-5*scale+1e-30
}

func line(t *T) {
	sec, sr, longest := newSize(t)
	l := delay.New(sec, sr)
	var h hist
	t.Desc("%v s at %v Hz", sec, sr)
	src := t.Signal(600, 1, "x")
	next := func() float32 { v := src[len(h)%len(src)]; return v }
	wrapped := false
	for op := t.Size(1, 30, 180, "ops"); op > 0; op-- {
		d := genDelay(t, longest)
		ms := d * 1000 / sr
		switch t.Int(0, 8, "op") {
		case 0:
			for k := t.Int(1, int(longest)+3, "n"); k > 0; k-- {
				v := next()
				l.Write(v)
				h = append(h, v)
			}
		case 1:
			if got := l.Read(d); !near(got, h.read(d), 1) {
				t.Fatalf("reading %v samples back gives %v, expected %v", d, got, h.read(d))
			}
		case 2:
			if got := l.Tap(d); !near(got, h.read(d), 1) {
				t.Fatalf("tapping %v samples back gives %v, expected %v", d, got, h.read(d))
			}
		case 3:
			if got := l.ReadMs(ms); !near(got, h.read(d), 1) {
				t.Fatalf("reading %v ms (%v samples) back gives %v, expected %v", ms, d, got, h.read(d))
			}
		case 4:
			for k := t.Size(1, 20, 20000, "n"); k > 0; k-- {
				v, w := next(), h.read(d)
				var got float32
				if k%2 == 0 {
					got = l.Process(v, d)
				} else {
					got = l.ProcessMs(v, ms)
				}
				if !near(got, w, 1) {
					t.Fatalf("processing with %v samples of delay gives %v, expected %v", d, got, w)
				}
				h = append(h, v)
			}
		case 5, 6:
			n := t.Size(0, 40, 20000, "n")
			if t.Int(0, 3, "rel") == 0 { // a block about as long as the delay, or a few times as long
				n = min(3000, max(0, int(d*Pick(t, "times", 1.0, 1, 2, t.U(0, 4, "timesv")))+t.Int(-1, 1, "off")))
			}
			buf := make([]float32, n)
			h2 := h
			want := make([]float64, n)
			for i := range buf {
				buf[i] = src[(len(h)+i)%len(src)]
				want[i] = h2.read(d)
				h2 = append(h2, buf[i])
			}
			in := Clone(buf)
			mix := float32(1)
			if t.Bool("mixed") {
				mix = float32(Pick(t, "mixk", t.U(0, 1, "mix"), 0, 1, 0.5, t.U(-1, 2, "mix2")))
				l.ProcessBufferMix(buf, d, mix)
			} else {
				l.ProcessBuffer(buf, d)
			}
			for i := range buf {
				w := want[i]*float64(mix) + float64(in[i])*(1-float64(mix))
				if !near(buf[i], w, 3) {
					t.Fatalf("buffer of %d samples, delay %v, mix %v: sample %d is %v, expected %v", n, d, mix, i, buf[i], w)
				}
			}
			h = h2
		case 7:
			if t.Int(0, 3, "reset") == 0 {
				l.Reset()
				h = nil
				t.Desc(" reset")
			}
		case 8:
			d = t.U(-3, longest*3+10, "wild")
			v := float64(l.Read(d))
			if !(math.Abs(v) <= 1.0001) {
				t.Fatalf("reading %v samples back from a line of %v gives %v, larger than anything written", d, longest, v)
			}
			if d <= 1 && !near(float32(v), h.at(1), 1) {
				t.Fatalf("reading %v samples back gives %v, the newest sample is %v", d, v, h.at(1))
			}
		}
		wrapped = wrapped || float64(len(h)) > longest+2
		t.Nontrivial(wrapped && d != math.Floor(d))
		t.Desc(" %.6g", d)
	}
}

func edges(t *T) {
	n := t.Int(1, 40, "len")
	sr := Pick(t, "sr", 1000.0, 44100, 48000, 1)
	l := delay.New((float64(n)+0.5)/sr, sr)
	var h hist
	for k := t.Int(0, 2*n+3, "writes"); k > 0; k-- {
		v := float32(len(h)%17) - 8
		l.Write(v)
		h = append(h, v)
	}
	d := float64(t.Int(0, n, "d"))
	e := Pick(t, "eps", 0.0, 1e-17, 1e-16, 1e-15, 1e-14, 1e-12, 1e-10, -1e-16, -1e-15, -1e-14, -1e-12, -1e-10)
	d += e
	if t.Int(0, 9, "special") == 0 {
		d = Pick(t, "s", math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, float64(n)+1, float64(n)+1.5)
		if p := Catch(func() { l.Read(d); l.Process(0, d) }); p != "" {
			t.Fatalf("line of %d samples, %d written: reading %v samples back panics: %s", n, len(h), d, p)
		}
		return
	}
	t.Nontrivial(math.Abs(e) < 1e-9)
	t.Desc("%d/%d %v", n, len(h), d)
	var got float32
	if p := Catch(func() { got = l.Read(d) }); p != "" {
		t.Fatalf("line of %d samples, %d written: reading %v samples back panics: %s", n, len(h), d, p)
	}
	if want := h.read(math.Max(1, d)); !near(got, want, 16) {
		t.Fatalf("line of %d samples, %d written: reading %v samples back gives %v, expected %v", n, len(h), d, got, want)
	}
	// the same through milliseconds, where the conversion rounds
	ms := float64(t.Int(1, 1000, "ms")) / 10
	if ms*sr/1000 <= float64(n) && ms*sr/1000 >= 1 {
		if p := Catch(func() { got = l.ReadMs(ms) }); p != "" {
			t.Fatalf("reading %v ms at %v Hz panics: %s", ms, sr, p)
		}
		if want := h.read(ms * sr / 1000); !near(got, want, 16) {
			t.Fatalf("reading %v ms at %v Hz gives %v, expected %v", ms, sr, got, want)
		}
	}
}

// blocks feeds the signal in drawn blocks; set changes settings before each.
func blocks(t *T, x []float32, set func(), run func(in, out []float32)) []float32 {
	out := make([]float32, len(x))
	i := 0
	for _, n := range t.Partition(len(x), "part") {
		if i == 0 || t.Bool("change") {
			set()
		}
		run(x[i:i+n], out[i:i+n])
		i += n
	}
	return out
}

// ref64 is a history kept in double precision.
type ref64 []float64

func (h ref64) at(k int) float64 {
	if i := len(h) - k; i >= 0 && i < len(h) {
		return h[i]
	}
	return 0
}

func (h ref64) read(d float64) float64 {
	k := math.Floor(d)
	f := d - k
	return h.at(int(k))*(1-f) + h.at(int(k)+1)*f
}

// ulp is more than two float32 roundings lose.
const ulp = 2.5e-7

func comb(t *T) {
	sec, sr, max := newSize(t)
	c := delay.NewComb(sec, sr)
	fb, damp := 0.5, 0.5
	d := genDelay(t, max)
	// eh and es bound what float32 rounding can have added to h and state
	var h, eh ref64
	state, es := 0.0, 0.0
	t.Desc("comb %v@%v", d, sr)
	for round := t.Size(1, 3, 18, "rounds"); round > 0; round-- {
		x := t.Signal(t.Size(1, 300, 20000, "n"), 1, "x")
		var want, slack []float64
		buf := t.Bool("buffer")
		got := blocks(t, x, func() {
			if t.Bool("fb") {
				fb = float64(float32(Pick(t, "fbk", t.U(-0.95, 0.95, "fbv"), t.U(-0.95, 0.95, "fbv2"), 0, 1, -1)))
				c.SetFeedback(float32(fb))
			}
			if t.Bool("damp") {
				damp = float64(float32(t.U(0, 1, "dampv")))
				if damp > 0.99 && damp < 1 { // where rounding adds up over hundreds of samples
					damp = float64(float32(0.99))
				}
				c.SetDamp(float32(damp))
			}
			if t.Bool("delay") {
				d = genDelay(t, max)
			}
			t.Nontrivial(fb != 0 && damp != 0)
		}, func(in, out []float32) {
			copy(out, in)
			if buf {
				c.ProcessBuffer(out, d)
			} else {
				for i := range out {
					out[i] = c.Process(out[i], d)
				}
			}
			for _, v := range in {
				o := h.read(d)
				eo := eh.read(d) + ulp*math.Abs(o)
				state = o*(1-damp) + state*damp
				es = eo*(1-damp) + es*damp + ulp*math.Abs(state)
				h = append(h, float64(v)+state*fb)
				eh = append(eh, es*math.Abs(fb)+ulp*(math.Abs(float64(v))+math.Abs(state*fb)))
				want, slack = append(want, o), append(slack, eo)
			}
		})
		scale := 1.0
		for _, w := range want {
			scale = math.Max(scale, math.Abs(w))
		}
		for i := range got {
			if !(math.Abs(float64(got[i])-want[i]) <= slack[i]+1e-5*scale) {
				t.Fatalf("comb (feedback %v, damping %v, delay %v): sample %d is %v, expected %v", fb, damp, d, i, got[i], want[i])
			}
		}
		if t.Bool("reset") {
			c.Reset()
			h, eh, state, es = nil, nil, 0, 0
			t.Desc(" reset")
		}
	}
}

func allpass(t *T) {
	sec, sr, max := newSize(t)
	a := delay.NewAllpass(sec, sr)
	fb := 0.5
	d := genDelay(t, max)
	var h, eh ref64
	t.Desc("allpass %v@%v", d, sr)
	for round := t.Size(1, 3, 18, "rounds"); round > 0; round-- {
		x := t.Signal(t.Size(1, 300, 20000, "n"), 1, "x")
		var want, slack []float64
		buf := t.Bool("buffer")
		got := blocks(t, x, func() {
			if t.Bool("fb") {
				fb = float64(float32(Pick(t, "fbk", t.U(-0.9, 0.9, "fbv"), t.U(-0.9, 0.9, "fbv2"), 0, 1, -1)))
				a.SetFeedback(float32(fb))
			}
			if t.Bool("delay") {
				d = genDelay(t, max)
			}
			t.Nontrivial(fb != 0)
		}, func(in, out []float32) {
			copy(out, in)
			if buf {
				a.ProcessBuffer(out, d)
			} else {
				for i := range out {
					out[i] = a.Process(out[i], d)
				}
			}
			for _, v := range in {
				o := h.read(d)
				eo := eh.read(d) + ulp*math.Abs(o)
				h = append(h, float64(v)+o*fb)
				eh = append(eh, eo*math.Abs(fb)+ulp*(math.Abs(float64(v))+math.Abs(o*fb)))
				want, slack = append(want, o-float64(v)), append(slack, eo)
			}
		})
		scale := 1.0
		for _, w := range want {
			scale = math.Max(scale, math.Abs(w))
		}
		for i := range got {
			if !(math.Abs(float64(got[i])-want[i]) <= slack[i]+1e-5*scale) {
				t.Fatalf("allpass (feedback %v, delay %v): sample %d is %v, expected %v", fb, d, i, got[i], want[i])
			}
		}
		if t.Bool("reset") {
			a.Reset()
			h, eh = nil, nil
			t.Desc(" reset")
		}
	}
}

func multitap(t *T) {
	sec, sr, max := newSize(t)
	nt := t.Int(0, 5, "taps")
	m := delay.NewMultiTap(sec, sr, nt)
	var taps []delay.TapOutput
	used := 0
	draw := func() {
		taps = make([]delay.TapOutput, t.Int(0, 6, "given"))
		for i := range taps {
			taps[i] = delay.TapOutput{DelaySamples: genDelay(t, max), Gain: float32(t.U(-1, 1, "gain")), Pan: float32(Pick(t, "pank", t.U(-1, 1, "pan"), -1, 0, 1))}
			t.Desc(" %.4g/%.3g/%.3g", taps[i].DelaySamples, taps[i].Gain, taps[i].Pan)
		}
		used = min(nt, len(taps))
		t.Nontrivial(used >= 2)
	}
	draw()
	var h hist
	xs := t.Signal(t.Size(1, 200, 20000, "n"), 1, "x")
	change := t.Int(0, 2*len(xs), "change") // the taps are given anew with each sample
	for i, v := range xs {
		if i == change {
			draw()
		}
		if i == change/2 && t.Int(0, 3, "reset") == 0 {
			m.Reset()
			h = nil
			t.Desc(" reset")
		}
		var wl, wr float64
		for _, tap := range taps[:used] {
			y := h.read(tap.DelaySamples) * float64(tap.Gain)
			a := (float64(tap.Pan) + 1) * math.Pi / 4
			wl += y * math.Cos(a)
			wr += y * math.Sin(a)
		}
		l, r := float32(77), float32(-77)
		m.ProcessMultiTap(v, taps, &l, &r)
		h = append(h, v)
		if !near(l, wl, 6) || !near(r, wr, 6) {
			t.Fatalf("%d of %d taps %+v: sample %d is %v/%v, expected %v/%v", used, len(taps), taps, i, l, r, wl, wr)
		}
	}
}

func modulated(t *T) {
	sec, sr, max := newSize(t)
	m := delay.NewModulated(sec, sr)
	b := math.Floor(sec*sr) + 1 // a sample or two of slack at the very end of the line
	rate, depth, center := 0.5, 5.0, 10.0
	phase := 0.0
	var h hist
	t.Desc("modulated %v@%v", sec, sr)
	for round := t.Size(1, 3, 18, "rounds"); round > 0; round-- {
		x := t.Signal(t.Size(1, 300, 20000, "n"), 1, "x")
		var want []float64
		buf := t.Bool("buffer")
		var over []bool
		got := blocks(t, x, func() {
			if t.Int(0, 3, "set") != 0 {
				r0 := rate
				rate = Pick(t, "rate", 0.0, 0.5, 5, t.U(0, sr/10, "r"))
				rate, depth = t.Keep(rate, r0, "rate"), t.Keep(t.U(0, max*500/sr, "depth"), depth, "depth")
				m.SetLFO(rate, depth)
				center = Pick(t, "ck", t.U(0, max*700/sr, "center"), t.U(0, max*700/sr, "center1"), t.U(-max*300/sr, max*700/sr, "center2"))
				m.SetCenterDelay(center)
			}
			t.Nontrivial(depth > 0)
			t.Desc(" %.3g/%.3g/%.3g", rate, depth, center)
		}, func(in, out []float32) {
			copy(out, in)
			if buf {
				m.ProcessBuffer(out)
			} else {
				for i := range out {
					out[i] = m.Process(out[i])
				}
			}
			for _, v := range in {
				d := math.Max(1, (center+depth*math.Sin(2*math.Pi*phase))*sr/1000)
				want = append(want, h.read(math.Min(d, b)))
				over = append(over, d > b-1)
				h = append(h, v)
				phase += rate / sr
				if phase >= 1 {
					phase--
				}
			}
		})
		for i := range got {
			if over[i] && math.Abs(float64(got[i])) <= 1.0001 {
				continue // past the end of the line
			}
			if !near(got[i], want[i], 5) {
				t.Fatalf("rate %v depth %v center %v: sample %d is %v, expected %v", rate, depth, center, i, got[i], want[i])
			}
		}
		if t.Bool("reset") {
			m.Reset()
			h, phase = nil, 0
			t.Desc(" reset")
		}
	}
}
