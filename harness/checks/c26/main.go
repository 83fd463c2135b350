// C26: loudness after ITU-R BS.1770-4 and EBU Tech 3342.
package main

import (
	"math"
	"sort"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C26",
		Subs: []Sub{
			{Name: "history", Quick: 2500, Thorough: 30000, Fn: history,
				Rule: "programmes of tones, noise, quiet and silence in mono, stereo, surround, cut into blocks of any number of frames, with resets, against K-weighting, windows, gates and percentiles computed from the whole programme; non-trivial: more than 3 seconds"},
			{Name: "weighting", Quick: 3000, Thorough: 40000, Fn: weighting,
				Rule: "steady tones of any frequency: momentary loudness is the level plus the K-weighting at that frequency; non-trivial: every case"},
		},
		Assumptions: []string{"whole frames in each block, sample rates from 5 kHz, channel counts 1, 2, 3, 5 and 6 in the order L R C (LFE) Ls Rs"},
	})
}

type biquad struct{ b0, b1, b2, a1, a2, x1, x2, y1, y2 float64 }

func (b *biquad) run(x float64) float64 {
	y := b.b0*x + b.b1*b.x1 + b.b2*b.x2 - b.a1*b.y1 - b.a2*b.y2
	b.x2, b.x1, b.y2, b.y1 = b.x1, x, b.y1, y
	return y
}

// the two stages of the K-weighting, parametrized as in the commonly used
// derivation that reproduces the table of the standard at 48 kHz
func stages(sr float64) (biquad, biquad) {
	k := math.Tan(math.Pi * 1681.974450955533 / sr)
	q := 0.7071752369554196
	vh := math.Pow(10, 3.999843853973347/20)
	vb := math.Pow(vh, 0.4996667741545416)
	a0 := 1 + k/q + k*k
	s1 := biquad{b0: (vh + vb*k/q + k*k) / a0, b1: 2 * (k*k - vh) / a0, b2: (vh - vb*k/q + k*k) / a0, a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
	k = math.Tan(math.Pi * 38.13547087602444 / sr)
	q = 0.5003270373238773
	a0 = 1 + k/q + k*k
	return s1, biquad{b0: 1, b1: -2, b2: 1, a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
}

func init() {
	// the table of BS.1770-4 at 48 kHz
	s1, s2 := stages(48000)
	for i, p := range [][2]float64{{s1.b0, 1.53512485958697}, {s1.b1, -2.69169618940638}, {s1.b2, 1.19839281085285},
		{s1.a1, -1.69065929318241}, {s1.a2, 0.73248077421585}, {s2.a1, -1.99004745483398}, {s2.a2, 0.99007225036621}} {
		if math.Abs(p[0]-p[1]) > 1e-8 {
			panic(i)
		}
	}
}

func weights(ch int) []float64 {
	return map[int][]float64{1: {1}, 2: {1, 1}, 3: {1, 1, 1}, 5: {1, 1, 1, 1.41, 1.41}, 6: {1, 1, 1, 0, 1.41, 1.41}}[ch]
}

func lufs(p float64) float64 { return -0.691 + 10*math.Log10(p) }

// near compares loudness; what is below -90 only has to be quiet.
func near(g, w float64) bool {
	if w < -90 {
		return g < -89.9
	}
	return math.Abs(g-w) <= 0.02
}

func weighting(t *T) {
	sr := Pick(t, "sr", 5000.0, 8000, 10000, 20000)
	f := t.LogU(20, sr*0.45, "freq")
	amp := t.LogU(1e-2, 2, "amp")
	t.Nontrivial(true)
	t.Desc("%v Hz at %v", f, sr)
	m := analysis.NewLUFSMeter(sr, 1)
	x := make([]float64, int(1.2*sr))
	for i := range x {
		x[i] = amp * math.Sin(2*math.Pi*f*float64(i)/sr)
	}
	m.Process(x)
	s1, s2 := stages(sr)
	g := 1.0
	for _, s := range []biquad{s1, s2} {
		w := 2 * math.Pi * f / sr
		nr, ni := s.b0+s.b1*math.Cos(w)+s.b2*math.Cos(2*w), s.b1*math.Sin(w)+s.b2*math.Sin(2*w)
		dr, di := 1+s.a1*math.Cos(w)+s.a2*math.Cos(2*w), s.a1*math.Sin(w)+s.a2*math.Sin(2*w)
		g *= math.Hypot(nr, ni) / math.Hypot(dr, di)
	}
	want := lufs(amp * amp / 2 * g * g)
	tol := 0.05
	if f < 100 {
		tol = 0.6 // windows hold few periods, and the filter still settles
	}
	if l := m.GetMomentaryLUFS(); !(math.Abs(l-want) <= tol) {
		t.Fatalf("a tone of %v Hz at %v has %v LUFS, expected %v", f, amp, l, want)
	}
}

func history(t *T) {
	sr := Pick(t, "sr", 5000.0, 5000, 8000)
	ch := Pick(t, "channels", 1, 2, 2, 3, 5, 6)
	w := weights(ch)
	m := analysis.NewLUFSMeter(sr, ch)
	var s1, s2 []biquad
	fresh := func() {
		s1, s2 = make([]biquad, ch), make([]biquad, ch)
		for c := range s1 {
			s1[c], s2[c] = stages(sr)
		}
	}
	fresh()
	var cum []float64 // cumulated weighted power per frame
	t.Desc("%d channels at %v:", ch, sr)
	longest := 0
	for s := t.Int(1, 6, "sections"); s > 0; s-- {
		if len(cum) > 0 && t.Int(0, 7, "reset") == 0 {
			m.Reset()
			cum = nil
			fresh()
			t.Desc(" reset")
		}
		n := int(sr * t.U(0.05, 2.5, "seconds"))
		if t.Big() && ch <= 2 && len(cum) < int(100*sr) && t.Int(0, 3, "long") == 0 {
			n = int(sr * t.U(30, 150, "long seconds"))
		}
		amp := Pick(t, "amp", 1.0, 0.1, t.LogU(1e-5, 1, "level"), 0)
		x := make([]float64, n*ch)
		for c := 0; c < ch; c++ {
			a := amp * Pick(t, "channel level", 1.0, 1, 0.5, 0)
			seed := uint64(t.Int(0, 1<<30, "noise"))
			f := t.LogU(30, sr*0.4, "freq")
			noise := t.Bool("noisy")
			for i := 0; i < n; i++ {
				if noise {
					seed = seed*6364136223846793005 + 1442695040888963407
					x[i*ch+c] = a * (float64(seed>>11)/float64(1<<53)*2 - 1)
				} else {
					x[i*ch+c] = a * math.Sin(2*math.Pi*f*float64(i)/sr)
				}
			}
		}
		t.Desc(" %d frames at %v", n, amp)
		sum := 0.0
		if len(cum) > 0 {
			sum = cum[len(cum)-1]
		}
		for i := 0; i < n; i++ {
			for c := 0; c < ch; c++ {
				y := s2[c].run(s1[c].run(x[i*ch+c]))
				sum += w[c] * y * y
			}
			cum = append(cum, sum)
		}
		big := t.Bool("host blocks")
		for i := 0; i < n; {
			k := 512
			if big {
				k = t.Size(1, 3000, 500000, "block")
			}
			k = min(k, n-i)
			m.Process(x[i*ch : (i+k)*ch])
			i += k
		}
		longest = max(longest, len(cum))
		compare(t, m, cum, sr)
	}
	t.Nontrivial(float64(longest) > 3*sr)
}

// power is the mean weighted power of the frames [from,to).
func power(cum []float64, from, to int) float64 {
	p := cum[to-1]
	if from > 0 {
		p -= cum[from-1]
	}
	return math.Max(0, p) / float64(to-from)
}

// measure lists the loudness of the windows of n frames, one every tenth of a second.
func measure(cum []float64, n, hop int) []float64 {
	var l []float64
	for end := n; end <= len(cum); end += hop {
		l = append(l, lufs(power(cum, end-n, end)))
	}
	return l
}

// gate returns the mean power of the windows past the gate, and whether a
// window is too close to the gate to tell.
func gate(l []float64, at float64) (kept []float64, mean float64, unsure bool) {
	for _, v := range l {
		if math.Abs(v-at) < 0.05 {
			unsure = true
		}
		if v >= at {
			kept = append(kept, v)
			mean += math.Pow(10, v/10)
		}
	}
	return kept, 10 * math.Log10(mean/float64(len(kept))), unsure
}

func compare(t *T, m *analysis.LUFSMeter, cum []float64, sr float64) {
	hop := int(sr) / 10
	mo := measure(cum, 4*hop, hop)
	sh := measure(cum, 30*hop, hop)
	last := func(l []float64) float64 {
		if len(l) == 0 {
			return math.Inf(-1)
		}
		return l[len(l)-1]
	}
	if g, w := m.GetMomentaryLUFS(), last(mo); !near(g, w) {
		t.Fatalf("after %v s momentary loudness is %v, expected %v", float64(len(cum))/sr, g, w)
	}
	if g, w := m.GetShortTermLUFS(), last(sh); !near(g, w) {
		t.Fatalf("after %v s short-term loudness is %v, expected %v", float64(len(cum))/sr, g, w)
	}
	kept, mean, u1 := gate(mo, -70)
	kept, mean, u2 := gate(kept, mean-10)
	if !u1 && !u2 {
		t.Class("integrated")
		if len(kept) == 0 {
			mean = math.Inf(-1)
		}
		if g := m.GetIntegratedLUFS(); !near(g, mean) {
			t.Fatalf("after %v s integrated loudness is %v, expected %v", float64(len(cum))/sr, g, mean)
		}
	}
	kept, mean, u1 = gate(sh, -70)
	kept, _, u2 = gate(kept, mean-20)
	if u1 || u2 {
		return
	}
	g := m.GetLoudnessRange()
	if len(kept) < 20 {
		if g != 0 {
			t.Fatalf("a loudness range of %v from %d windows", g, len(kept))
		}
		return
	}
	t.Class("range")
	sort.Float64s(kept)
	n := float64(len(kept))
	// any usual way to take a percentile
	lo := kept[max(0, int(n*0.95)-1)] - kept[int(n*0.1)+1]
	hi := kept[min(len(kept)-1, int(n*0.95)+1)] - kept[max(0, int(n*0.1)-1)]
	if !(g >= lo-0.05 && g <= hi+0.05) {
		t.Fatalf("after %v s the loudness range is %v, expected %v to %v", float64(len(cum))/sr, g, lo, hi)
	}
}
