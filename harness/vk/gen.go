package vk

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// unit draws a float64 spread evenly over [0,1), with 0 over-represented.
// (rapid's integer and float generators favour small magnitudes; within one
// binade its float generator is even, at a random precision, and it shrinks to 0.)
func (t *T) unit(label string) float64 { return unitGen.Draw(t.T, label) - 1 }

var unitGen = rapid.Float64Range(1, math.Nextafter(2, 0))

// Int draws an int spread evenly over [lo,hi].
func (t *T) Int(lo, hi int, label string) int {
	n := hi - lo + 1
	if n <= 0 {
		panic(fmt.Sprintf("Int(%d,%d)", lo, hi))
	}
	k := int(t.unit(label) * float64(n))
	if k >= n {
		k = n - 1
	}
	return lo + k
}

// F draws a float64 in [lo,hi], favouring small magnitudes and special values.
func (t *T) F(lo, hi float64, label string) float64 {
	return rapid.Float64Range(lo, hi).Draw(t.T, label)
}

// U draws a float64 spread evenly over [lo,hi], with the end points and the
// middle over-represented. In a case that draws the same label again (a setting
// changed as part of a history), the last and the first value come up again, and
// values next to the last one: a setter that compares with what it has, or
// that takes several settings of which one changed, is asked that way.
func (t *T) U(lo, hi float64, label string) float64 {
	v := t.u(lo, hi, label)
	if t.drawn == nil {
		t.drawn = map[string][2]float64{}
	}
	if d, ok := t.drawn[label]; ok {
		t.drawn[label] = [2]float64{d[0], v}
	} else {
		t.drawn[label] = [2]float64{v, v}
	}
	return v
}

func (t *T) u(lo, hi float64, label string) float64 {
	kind := t.Int(0, 31, label+".kind")
	switch kind {
	case 21:
		return lo
	case 22:
		return hi
	case 23:
		return lo + (hi-lo)/2
	case 24, 25, 26, 27, 28, 29, 30, 31:
		if d, ok := t.drawn[label]; ok {
			v := d[1]
			switch kind {
			case 26:
				v = d[0]
			case 27:
				v += (hi - lo) * math.Ldexp(1, -4-t.Int(0, 24, label+".near"))
			case 28, 30:
				v += (hi - lo) * math.Ldexp(1, -4-t.Int(0, 9, label+".near"))
			case 29, 31:
				v -= (hi - lo) * math.Ldexp(1, -4-t.Int(0, 9, label+".near"))
			}
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + (hi-lo)*t.unit(label)
}

// LogU draws a float64 spread evenly in log scale over [lo,hi].
func (t *T) LogU(lo, hi float64, label string) float64 {
	return math.Exp(t.U(math.Log(lo), math.Log(hi), label))
}

// Keep draws whether one of several settings made together stays as it is: it
// returns cur or v.
func (t *T) Keep(v, cur float64, label string) float64 {
	if t.Int(0, 2, label+".keep") == 0 {
		return cur
	}
	return v
}

// Bool draws a bool.
func (t *T) Bool(label string) bool { return rapid.Bool().Draw(t.T, label) }

// Pick draws one of the values.
func Pick[V any](t *T, label string, vs ...V) V { return vs[t.Int(0, len(vs)-1, label)] }

// Rate draws a sample rate.
func (t *T) Rate(label string) float64 {
	return Pick(t, label, 44100.0, 48000, 88200, 96000, 22050, 8000, 192000)
}

// Signal draws a test signal of n samples with amplitude at most amp. The
// shape is drawn, the samples follow from a drawn 64-bit state, so the signal
// is a pure function of what was drawn and shrinks to a simple one.
func (t *T) Signal(n int, amp float64, label string) []float32 {
	x := make([]float32, n)
	kind := t.Int(0, 7, label+".kind")
	st := rapid.Uint64().Draw(t.T, label+".state")
	rnd := func() float64 {
		st = st*6364136223846793005 + 1442695040888963407
		return float64(st>>11)/float64(1<<53)*2 - 1
	}
	switch kind {
	case 0: // impulse
		if n > 0 {
			x[int(st%uint64(n))] = float32(amp)
		}
	case 1: // step
		k := 0
		if n > 0 {
			k = int(st % uint64(n))
		}
		for i := k; i < n; i++ {
			x[i] = float32(amp)
		}
	case 2: // sine
		w := (rnd() + 1.0001) * math.Pi / 2
		for i := range x {
			x[i] = float32(amp * math.Sin(w*float64(i)))
		}
	case 3: // noise
		for i := range x {
			x[i] = float32(amp * rnd())
		}
	case 4: // noise in bursts separated by silence
		on := true
		for i := range x {
			if st>>33%37 == 0 {
				on = !on
			}
			v := rnd()
			if on {
				x[i] = float32(amp * v)
			}
		}
	case 5: // alternating full scale
		for i := range x {
			x[i] = float32(amp)
			if i%2 == 1 {
				x[i] = float32(-amp)
			}
		}
	case 6: // levels spread over decades
		for i := range x {
			x[i] = float32(amp * math.Pow(10, -4*math.Abs(rnd())) * math.Copysign(1, rnd()))
		}
	case 7: // decaying square
		p := 2 + int(st%61)
		for i := range x {
			v := amp * math.Exp(-float64(i)/200)
			if (i/p)%2 == 1 {
				v = -v
			}
			x[i] = float32(v)
		}
	}
	t.Desc(" %s=signal{kind:%d n:%d amp:%.4g state:%x}", label, kind, n, amp, st)
	return x
}

// Partition draws a division of n samples into blocks of at least one sample.
func (t *T) Partition(n int, label string) []int {
	var p []int
	for n > 0 {
		k := 1
		if n > 1 {
			k = t.Int(1, n, label)
			if k > 64 && rapid.Bool().Draw(t.T, label+".small") {
				k = 1 + k%64
			}
		}
		p = append(p, k)
		n -= k
	}
	return p
}

// Finite reports whether v is neither NaN nor infinite.
func Finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

// Close reports |a-b| <= abs + rel*max(|a|,|b|); NaN is close to nothing.
func Close(a, b, abs, rel float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}

// SameBits reports whether two slices agree bit for bit (all NaNs alike).
func SameBits(a, b []float32) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return i, false
		}
	}
	return 0, true
}

// CloseSlice compares with tolerance abs + rel*scale, where scale is the
// largest magnitude seen in either slice.
func CloseSlice(a, b []float32, abs, rel float64) (string, bool) {
	if len(a) != len(b) {
		return fmt.Sprintf("lengths %d and %d", len(a), len(b)), false
	}
	m := 0.0
	for i := range a {
		if x := math.Max(math.Abs(float64(a[i])), math.Abs(float64(b[i]))); !math.IsInf(x, 1) {
			m = math.Max(m, x)
		}
	}
	for i := range a {
		d := math.Abs(float64(a[i]) - float64(b[i]))
		if !(d <= abs+rel*m) && a[i] != b[i] {
			return fmt.Sprintf("sample %d: %v and %v differ by %g (tolerance %g)", i, a[i], b[i], d, abs+rel*m), false
		}
	}
	return "", true
}

// Clone copies a slice.
func Clone[V any](x []V) []V { return append([]V(nil), x...) }

// DB converts a linear gain to decibels; FromDB the reverse.
func DB(x float64) float64      { return 20 * math.Log10(x) }
func FromDB(db float64) float64 { return math.Pow(10, db/20) }

// Catch runs fn and returns a description of its panic, or "".
func Catch(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	fn()
	return ""
}

// Big reports whether this is a big case.
func (t *T) Big() bool {
	if t.scale == 0 {
		t.scale = 1
		if t.Int(0, 39, "big case") == 39 {
			t.scale = 2
		}
	}
	return t.scale == 2
}

// Size draws a number evenly from [lo,hi]. One case in forty is big: half of its
// sizes are even in log scale over [hi,big], for what breaks only when there is
// a lot of something, or of several things at once.
func (t *T) Size(lo, hi, big int, label string) int {
	if t.Big() && t.Bool(label+".big") {
		return int(t.LogU(float64(max(hi, 1)), float64(big), label+".size"))
	}
	return t.Int(lo, hi, label)
}

// Bytes draws n bytes that follow from one drawn state.
func (t *T) Bytes(n int, label string) []byte {
	st := rapid.Uint64().Draw(t.T, label)
	b := make([]byte, n)
	for i := range b {
		st = st*6364136223846793005 + 1442695040888963407
		b[i] = byte(st >> 56)
	}
	return b
}

// IDs draws n distinct numbers: consecutive ones, or spread over all of uint32.
func (t *T) IDs(n int, label string) []uint32 {
	x, step := rapid.Uint32().Draw(t.T, label), uint32(1)
	if t.Bool(label + ".spread") {
		step = rapid.Uint32().Draw(t.T, label+".step") | 1
	}
	ids := make([]uint32, n)
	for i := range ids {
		ids[i] = x + uint32(i)*step
	}
	return ids
}
