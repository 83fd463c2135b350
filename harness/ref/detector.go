// Package ref holds reference models shared by several checks. They are
// written from the documented behaviour, in double precision.
package ref

import "math"

// Detector models the level detector: what it measures (peak, RMS over a
// window, peak with hold), and how it rises and falls.
type Detector struct {
	SR                    float64
	Mode                  int // 0 peak, 1 RMS, 2 peak hold
	Type                  int // 0 linear, 1 logarithmic, 2 analog
	Attack, Release, Hold float64
	Win                   int
	env                   float64
	hold                  int
	Tie                   bool // the hold may have begun a rounding error later
	hist                  []float64
}

// NewDetector has the documented defaults: 1 ms, 100 ms, 10 ms, 3 ms window.
func NewDetector(sr float64, mode int) *Detector {
	w := int(sr * 0.003)
	if w < 1 {
		w = 1
	}
	return &Detector{SR: sr, Mode: mode, Attack: 0.001, Release: 0.1, Hold: 0.01, Win: w}
}

func (d *Detector) keep(seconds float64) float64 {
	k := 1.0
	if d.Type == 1 {
		k = 2.2
	}
	return math.Exp(-k / (math.Max(0.0001, seconds) * d.SR))
}

// Window changes the RMS window, which starts empty.
func (d *Detector) Window(ms float64) {
	n := int(d.SR * ms / 1000)
	if n < 1 {
		n = 1
	}
	if n != d.Win {
		d.Win = n
		d.hist = nil
	}
}

// Env is the current envelope.
func (d *Detector) Env() float64 { return d.env }

// Set adopts the envelope the implementation reports, to keep rounding of the
// two from drifting apart.
func (d *Detector) Set(v float64) { d.env = v }

// Reset forgets everything.
func (d *Detector) Reset() { d.env, d.hold, d.hist = 0, 0, nil }

// Detect advances by one sample.
func (d *Detector) Detect(x float64) float64 {
	lvl := math.Abs(x)
	if d.Mode == 1 {
		d.hist = append(d.hist, x*x)
		if len(d.hist) > d.Win {
			d.hist = d.hist[len(d.hist)-d.Win:]
		}
		s := 0.0
		for _, v := range d.hist {
			s += v
		}
		lvl = math.Sqrt(s / float64(d.Win))
	}
	if d.Mode == 2 && lvl > 0 && math.Abs(lvl-d.env) <= 1e-9*d.env {
		d.Tie = true // whether this is above the envelope is a matter of rounding
	} else if lvl > d.env {
		d.Tie = false
	}
	if lvl > d.env {
		a := d.keep(d.Attack)
		d.env = lvl + (d.env-lvl)*a
		if d.Type != 2 && d.Mode != 1 && (1-a > 0.5 || lvl > 2*d.env) {
			d.env = lvl // a level far above the envelope is taken at once
		}
		d.hold = int(d.Hold * d.SR)
	} else if d.Mode == 2 && d.hold > 0 {
		d.hold--
	} else {
		d.env = lvl + (d.env-lvl)*d.keep(d.Release)
	}
	return d.env
}

// Level converts an envelope to decibels as the dynamics processors do.
func Level(env float64) float64 {
	env = float64(float32(env))
	if env <= 0 {
		return -96
	}
	return 20 * math.Log10(env)
}
