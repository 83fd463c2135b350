// C32: logger, profiler, buffer inspection and allocation checks.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C32",
		Subs: []Sub{
			{Name: "logger", Quick: 6000, Thorough: 100000, Fn: logger,
				Rule: "histories of messages and setting changes on own, file and global loggers against the lines the settings ask for, with the caller's line; non-trivial: a message left out and one written"},
			{Name: "concurrent", Quick: 330, Thorough: 3000, Fn: concurrent,
				Rule: "several goroutines logging, profiling and changing settings (race detector on): whole lines, one write each, none lost, and exact counts; non-trivial: always"},
			{Name: "profiler", Quick: 3000, Thorough: 50000, Fn: profiler,
				Rule: "histories of nested and overlapping sections, switching off, resets and copies against a model fed with the reported last times, which the harness clock bounds; non-trivial: more samples than the buffer, or a reset"},
			{Name: "analyze", Quick: 20000, Thorough: 500000, Fn: analyze,
				Rule: "buffers with clipping, offsets, silence and not-a-numbers: analysis, checks, comparison and displays against direct computation; non-trivial: more than one sample"},
			{Name: "tracker", Quick: 3000, Thorough: 50000, Fn: tracker,
				Rule: "histories of buffer checks, frames, resets, pools and allocating functions (debug build) against a model; non-trivial: three operations or more"},
		},
		Assumptions: []string{"samples beyond 1e15 in size and infinities are outside the analysis claims", "the buffer checks are built with their tag"},
	})
}

var stamp = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}) `)

// here returns the line it is called from.
// here is the number of the line after the call.
func here() int {
	_, _, l, _ := runtime.Caller(1)
	return l + 1
}

type selfish struct {
	l *debug.Logger
	s string
}

func (s selfish) String() string { s.l.Debug("inner %s", s.s); return s.s }

type lines struct {
	mu     sync.Mutex
	bufs   []string
	inside atomic.Int32
	clash  atomic.Bool
	slow   bool
}

func (w *lines) Write(b []byte) (int, error) {
	if w.inside.Add(1) != 1 {
		w.clash.Store(true)
	}
	s := string(b)
	if w.slow {
		runtime.Gosched()
	}
	w.mu.Lock()
	w.bufs = append(w.bufs, s)
	w.mu.Unlock()
	w.inside.Add(-1)
	return len(b), nil
}

func (w *lines) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := w.bufs
	w.bufs = nil
	return b
}

var names = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

func logger(t *T) {
	flags := t.Int(0, 31, "flags")
	prefix := Pick(t, "prefix", "", "TEST", "50% [x]", "ä b")
	kind := Pick(t, "logger", "own", "global", "file", "own", "global")
	out := &lines{}
	var l *debug.Logger
	level, enabled := 1, true
	var file string
	seen := 0
	var opens []*os.File
	defer func() {
		for _, f := range opens {
			f.Close()
		}
	}()
	mkfile := func() {
		var err error
		l, err = debug.NewFileLogger(file, prefix, flags)
		if err != nil {
			t.Fatalf("%v", err)
		}
		level, enabled = 1, true
	}
	switch kind {
	case "own":
		l = debug.New(out, prefix, flags)
	case "global":
		l = debug.Default()
		debug.SetOutput(out)
		defer debug.SetOutput(os.Stderr)
		debug.SetLevel(debug.LogLevelInfo)
		debug.SetPrefix(prefix)
		debug.SetFlags(flags)
		debug.SetEnabled(true)
	case "file":
		dir, err := os.MkdirTemp("", "c32")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		file = filepath.Join(dir, "a", "b", "log.txt")
		if t.Bool("shallow") {
			file = filepath.Join(dir, "log.txt")
		}
		mkfile()
	}
	take := func() []string {
		if kind != "file" {
			return out.take()
		}
		b, err := os.ReadFile(file)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if len(b) < seen {
			t.Fatalf("the log file shrank from %d to %d bytes", seen, len(b))
		}
		s := string(b[seen:])
		seen = len(b)
		if s == "" {
			return nil
		}
		return []string{s}
	}
	glob := kind == "global"
	written, dropped := 0, 0
	t.Desc("%s flags %05b prefix %q:", kind, flags, prefix)
	for s := t.Int(1, 12, "steps"); s > 0; s-- {
		switch t.Int(0, 9, "op") {
		case 0:
			level = t.Int(-1, 6, "level")
			t.Desc(" level %d", level)
			if glob && t.Bool("g") {
				debug.SetLevel(debug.LogLevel(level))
			} else {
				l.SetLevel(debug.LogLevel(level))
			}
			continue
		case 1:
			flags = t.Int(0, 31, "flags")
			t.Desc(" flags %05b", flags)
			if glob && t.Bool("g") {
				debug.SetFlags(flags)
			} else {
				l.SetFlags(flags)
			}
			continue
		case 2:
			switch t.Int(0, 2, "which") {
			case 0:
				enabled = t.Bool("enabled")
				t.Desc(" enabled %v", enabled)
				if glob && t.Bool("g") {
					debug.SetEnabled(enabled)
				} else {
					l.SetEnabled(enabled)
				}
				if l.IsEnabled() != enabled {
					t.Fatalf("enabled %v set, %v got", enabled, l.IsEnabled())
				}
			case 1:
				prefix = Pick(t, "prefix", "", "NEW", "%d")
				t.Desc(" prefix %q", prefix)
				if glob && t.Bool("g") {
					debug.SetPrefix(prefix)
				} else {
					l.SetPrefix(prefix)
				}
			case 2:
				if kind == "file" {
					mkfile() // a second logger on the same file appends
					t.Desc(" reopened")
				}
			}
			continue
		}
		lv := t.Int(0, 4, "severity")
		format, args := "plain", []any{}
		switch t.Int(0, 9, "format") {
		case 1:
			format, args = "a %d of %s", []any{t.Int(0, 9, "n"), "100%"}
		case 2:
			format = "ends\n"
		case 3:
			format = ""
		case 4:
			format, args = "%v", []any{selfish{l, "x"}}
		case 5:
			format, args = "two\nlines %v", []any{1.5}
		case 6:
			format = Pick(t, "ending", "ends\r", "ends\n\r", "ends\n\n", " ends \t", "\n", "ends\x00")
		case 7:
			format = Pick(t, "percent", "100%%", "%%", "a %%d b", "50%% of %%")
		case 8:
			format = strings.Repeat("long line ", t.Int(50, 2000, "words"))
		case 9:
			format, args = "%s|%5d|%x", []any{strings.Repeat("%", t.Int(0, 3000, "percents")), -7, "é"}
		}
		body := "x"
		if format != "%v" {
			body = fmt.Sprintf(format, args...)
		}
		wantPanic := lv == 4
		line := 0
		before := time.Now()
		api := t.Int(0, 2, "api")
		cond := true
		msg := Catch(func() {
			switch {
			case glob && api == 1 && (lv == 0 || lv == 2 || lv == 3):
				cond = t.Bool("condition")
				switch lv {
				case 0:
					line = here()
					debug.DebugIf(cond, format, args...)
				case 2:
					line = here()
					debug.WarnIf(cond, format, args...)
				case 3:
					line = here()
					debug.ErrorIf(cond, format, args...)
				}
			case glob && api > 0:
				switch lv {
				case 0:
					line = here()
					debug.Debug(format, args...)
				case 1:
					line = here()
					debug.Info(format, args...)
				case 2:
					line = here()
					debug.Warn(format, args...)
				case 3:
					line = here()
					debug.Error(format, args...)
				case 4:
					line = here()
					debug.Fatal(format, args...)
				}
			default:
				switch lv {
				case 0:
					line = here()
					l.Debug(format, args...)
				case 1:
					line = here()
					l.Info(format, args...)
				case 2:
					line = here()
					l.Warn(format, args...)
				case 3:
					line = here()
					l.Error(format, args...)
				case 4:
					line = here()
					l.Fatal(format, args...)
				}
			}
		})
		after := time.Now()
		if (msg != "") != wantPanic || (wantPanic && msg != body && body != "") {
			t.Fatalf("severity %d panicked with %q", lv, msg)
		}
		got := take()
		t.Desc(" %s", names[lv])
		if format == "%v" { // lines logged by the argument come first, they are not looked at
			var keep []string
			for _, g := range got {
				for _, p := range strings.SplitAfter(g, "\n") {
					if p != "" && !strings.HasSuffix(p, "inner x\n") {
						keep = append(keep, p)
					}
				}
			}
			got = keep
		}
		if !enabled || lv < level || !cond {
			dropped++
			if len(got) != 0 {
				t.Fatalf("a message of severity %d at level %d (enabled %v, condition %v) was written: %q", lv, level, enabled, cond, got)
			}
			continue
		}
		written++
		if len(got) != 1 {
			t.Fatalf("one message gave %d writes: %q", len(got), got)
		}
		rest := got[0]
		if flags&debug.FlagTime != 0 {
			m := stamp.FindStringSubmatch(rest)
			if m == nil {
				t.Fatalf("no time in %q", rest)
			}
			ts, err := time.ParseInLocation("2006-01-02 15:04:05.000", m[1], time.Local)
			if err != nil || ts.Before(before.Add(-2*time.Millisecond)) || ts.After(after.Add(2*time.Millisecond)) {
				t.Fatalf("time %q of a message between %v and %v", m[1], before, after)
			}
			rest = rest[len(m[0]):]
		}
		want := ""
		if flags&debug.FlagLevel != 0 {
			want += "[" + names[lv] + "] "
		}
		if flags&debug.FlagPrefix != 0 && prefix != "" {
			want += "[" + prefix + "] "
		}
		if flags&(debug.FlagShortFile|debug.FlagLongFile) != 0 {
			_, f, _, _ := runtime.Caller(0)
			if flags&debug.FlagShortFile != 0 {
				f = filepath.Base(f)
			}
			want += fmt.Sprintf("%s:%d: ", f, line)
		}
		want += body
		if !strings.HasSuffix(body, "\n") {
			want += "\n"
		}
		if rest != want {
			t.Fatalf("message written as %q, expected %q", rest, want)
		}
	}
	t.Nontrivial(written > 0 && dropped > 0)
}

func concurrent(t *T) {
	g := t.Int(2, 6, "goroutines")
	k := t.Int(1, 40, "messages")
	out := &lines{slow: t.Bool("slow")}
	l := debug.New(out, "P", debug.FlagLevel|debug.FlagPrefix)
	p := debug.NewProfiler(t.Int(1, 50, "samples"))
	p2 := debug.NewProfiler(t.Int(1, 5, "samples2"))
	size := t.Int(1, 64, "pool")
	pool := newPool(size)
	chg := t.Bool("changes")
	ownLevel := t.Bool("levels")
	t.Nontrivial(true)
	t.Desc("%d goroutines, %d messages each, changes %v", g, k, chg)
	var wg sync.WaitGroup
	start := make(chan struct{})
	var bad atomic.Value
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j := 0; j < k; j++ {
				if j%2 == 0 {
					l.Info("m-%d-%d", i, j)
				} else {
					l.Error("m-%d-%d", i, j)
				}
				stop := p.Start("shared")
				p.Time(fmt.Sprint("own", i), func() {})
				stop()
				p2.Time("often cleared", func() {})
				if !l.IsEnabled() {
					bad.Store("a logger that was never disabled says it is")
				}
				b := pool.Get()
				if len(b) != size {
					bad.Store(fmt.Sprintf("the pool of %d gave %d samples", size, len(b)))
					return
				}
				b[0] = float32(i*1000 + j)
				runtime.Gosched()
				if b[0] != float32(i*1000+j) {
					bad.Store(fmt.Sprintf("a pool buffer was given to two users at once"))
				}
				pool.Put(b)
				if m, ok := p.GetMeasurement("shared"); ok {
					_ = m.Average() + m.Percentile(50)
				}
				_ = p.GetAllMeasurements()
			}
		}(i)
	}
	if chg {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < k; j++ {
				l.SetPrefix("P")
				l.SetFlags(debug.FlagLevel | debug.FlagPrefix)
				if ownLevel {
					l.SetLevel(debug.LogLevel(j % 2))
				}
				l.SetEnabled(true)
				l.SetOutput(out)
				p2.Reset()
				_ = p.Report()
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	if s, ok := bad.Load().(string); ok {
		t.Fatalf("%s", s)
	}
	if out.clash.Load() {
		t.Fatalf("two messages were written at the same time")
	}
	seen := map[string]int{}
	next := make([]int, g)
	for _, s := range out.take() {
		var i, j int
		var sev string
		if n, _ := fmt.Sscanf(s, "%s [P] m-%d-%d\n", &sev, &i, &j); n != 3 || i >= g || s != fmt.Sprintf("%s [P] m-%d-%d\n", sev, i, j) {
			t.Fatalf("broken line %q", s)
		}
		if j != next[i] {
			t.Fatalf("message %d of goroutine %d was written when %d was due", j, i, next[i])
		}
		next[i]++
		if seen[s]++; seen[s] > 1 {
			t.Fatalf("line %q written twice", s)
		}
	}
	if len(seen) != g*k {
		t.Fatalf("%d of %d messages were written", len(seen), g*k)
	}
	if n := parseReport(t, p2.Report())["often cleared"].count; n > g*k || !chg && n != g*k {
		t.Fatalf("%d of %d sections were counted, with resets meanwhile: %v", n, g*k, chg)
	}
	rep := parseReport(t, p.Report())
	if rep["shared"].count != g*k {
		t.Fatalf("%d of %d sections were counted", rep["shared"].count, g*k)
	}
	for i := 0; i < g; i++ {
		if n := rep[fmt.Sprint("own", i)].count; n != k {
			t.Fatalf("%d of %d own sections were counted", n, k)
		}
	}
	if _, use := pool.Stats(); use != 0 {
		t.Fatalf("%d buffers in use after all were returned", use)
	}
}

type stats struct {
	count                        int
	total, avg, minT, maxT, last time.Duration
}

func parseReport(t *T, rep string) map[string]stats {
	out := map[string]stats{}
	name := ""
	for _, ln := range strings.Split(rep, "\n") {
		if strings.HasPrefix(ln, "  ") {
			f := strings.SplitN(strings.TrimSpace(ln), ":", 2)
			v := strings.TrimSpace(f[1])
			s := out[name]
			if f[0] == "Count" {
				s.count, _ = strconv.Atoi(v)
				out[name] = s
				continue
			}
			d, err := time.ParseDuration(v)
			if err != nil {
				continue
			}
			switch f[0] {
			case "Total":
				s.total = d
			case "Average":
				s.avg = d
			case "Min":
				s.minT = d
			case "Max":
				s.maxT = d
			case "Last":
				s.last = d
			}
			out[name] = s
		} else if strings.HasSuffix(ln, ":") {
			name = strings.TrimSuffix(ln, ":")
		}
	}
	return out
}

type section struct {
	name    string
	stop    func()
	t0      time.Time // before start
	t1      time.Time // after start
	counted bool
}

type pm struct {
	all []time.Duration
}

func (m *pm) stats() stats {
	s := stats{count: len(m.all)}
	for i, d := range m.all {
		s.total += d
		s.last = d
		if i == 0 || d < s.minT {
			s.minT = d
		}
		if d > s.maxT {
			s.maxT = d
		}
	}
	s.avg = s.total / time.Duration(len(m.all))
	return s
}

// quantile bounds the p-th percentile of the last n.
func (m *pm) quantile(n int, p float64) (time.Duration, time.Duration) {
	a := m.all
	if len(a) > n {
		a = a[len(a)-n:]
	}
	a = append([]time.Duration(nil), a...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	x := p / 100 * float64(len(a)-1)
	lo, hi := int(math.Floor(x-1e-9)), int(math.Ceil(x+1e-9))
	at := func(i int) time.Duration {
		if i < 0 {
			i = 0
		}
		if i >= len(a) {
			i = len(a) - 1
		}
		return a[i]
	}
	return at(lo), at(hi)
}

func spin(d time.Duration) {
	for t0 := time.Now(); time.Since(t0) < d; {
	}
}

func profiler(t *T) {
	n := t.Int(-1, 12, "samples")
	keep := n
	if keep < 1 {
		keep = 1
	}
	glob, audio := false, false
	var p *debug.Profiler
	var ap *debug.AudioProcessProfiler
	sr, bs := t.Rate("sr"), t.Int(1, 4096, "buffer")
	switch t.Int(0, 4, "kind") {
	case 0:
		glob = true
		p = debug.DefaultProfiler
		keep = 1000
		debug.EnableProfiling()
		debug.ResetProfiling()
	case 1:
		audio = true
		ap = debug.NewAudioProcessProfiler(sr, bs)
		p = ap.Profiler
		keep = 1000
	default:
		p = debug.NewProfiler(n)
	}
	names := []string{"ProcessAudio", "b", "c d"}
	model := map[string]*pm{}
	enabled := true
	var open []section
	load := 0.0
	type copied struct {
		m    *debug.Measurement
		avg  time.Duration
		p50  time.Duration
		p100 time.Duration
	}
	var copies []copied
	over, resets := false, 0
	t.Desc("keep %d:", keep)
	finish := func(s section, run func()) {
		t2 := time.Now()
		run()
		t3 := time.Now()
		if !s.counted {
			return
		}
		st := parseReport(t, p.Report())[s.name]
		if st.last < t2.Sub(s.t1) || st.last > t3.Sub(s.t0) {
			t.Fatalf("a section of %v to %v was recorded as %v", t2.Sub(s.t1), t3.Sub(s.t0), st.last)
		}
		m := model[s.name]
		if m == nil {
			m = &pm{}
			model[s.name] = m
		}
		m.all = append(m.all, st.last)
		if len(m.all) > keep {
			over = true
		}
	}
	for s := t.Int(1, 40, "steps"); s > 0; s-- {
		name := Pick(t, "name", names...)
		dur := time.Duration(t.LogU(10, 20000, "ns"))
		op := t.Int(0, 13, "op")
		if t.Big() && keep < 20 && enabled && t.Int(0, 9, "many times") == 0 {
			for k := t.Size(1, 20, 8000, "times"); k > 0; k-- {
				sec := section{name: name, counted: true, t0: time.Now()}
				stop := p.Start(name)
				sec.t1 = time.Now()
				finish(sec, stop)
			}
			t.Desc(" many")
		}
		switch op {
		case 0, 1, 2:
			sec := section{name: name, counted: enabled, t0: time.Now()}
			if glob {
				sec.stop = debug.Start(name)
			} else {
				sec.stop = p.Start(name)
			}
			sec.t1 = time.Now()
			open = append(open, sec)
			t.Desc(" start")
		case 3, 4, 5:
			if len(open) > 0 {
				i := t.Int(0, len(open)-1, "which")
				sec := open[i]
				open = append(open[:i:i], open[i+1:]...)
				finish(sec, sec.stop)
				t.Desc(" stop")
			}
		case 6, 7, 8, 9:
			sec := section{name: name, counted: enabled, t0: time.Now()}
			ran := false
			boom := t.Int(0, 5, "panic") == 0
			var a, b time.Time
			fn := func() {
				a = time.Now()
				spin(dur)
				ran = true
				b = time.Now()
				if boom {
					panic("boom")
				}
			}
			msg := Catch(func() {
				if glob {
					debug.Time(name, fn)
				} else {
					p.Time(name, fn)
				}
			})
			t3 := time.Now()
			if !ran || (msg != "") != boom {
				t.Fatalf("a timed function ran: %v, panic %q", ran, msg)
			}
			if sec.counted {
				st := parseReport(t, p.Report())[name]
				if st.last < b.Sub(a) || st.last > t3.Sub(sec.t0) {
					t.Fatalf("a function of %v was recorded as %v (panic %v)", b.Sub(a), st.last, boom)
				}
				if model[name] == nil {
					model[name] = &pm{}
				}
				model[name].all = append(model[name].all, st.last)
				over = over || len(model[name].all) > keep
			}
			t.Desc(" time")
		case 10:
			enabled = t.Bool("enabled")
			if glob && t.Bool("g") {
				if enabled {
					debug.EnableProfiling()
				} else {
					debug.DisableProfiling()
				}
			} else {
				p.SetEnabled(enabled)
			}
			if p.IsEnabled() != enabled {
				t.Fatalf("enabled is %v", p.IsEnabled())
			}
			t.Desc(" enabled %v", enabled)
		case 11:
			if t.Int(0, 2, "really") == 0 {
				if glob {
					debug.ResetProfiling()
				} else {
					p.Reset()
				}
				model = map[string]*pm{}
				resets++
				t.Desc(" reset")
			}
		case 12:
			if m, ok := p.GetMeasurement(name); ok {
				copies = append(copies, copied{m, m.Average(), m.Percentile(50), m.Percentile(100)})
			}
			if m, ok := p.GetAllMeasurements()[name]; ok {
				copies = append(copies, copied{m, m.Average(), m.Percentile(50), m.Percentile(100)})
			}
		case 13:
			if audio {
				ap.UpdateCPULoad()
				if m := model["ProcessAudio"]; m != nil {
					load = float64(m.stats().avg.Nanoseconds()) / (float64(bs) / sr * 1e9) * 100
				}
				if g := ap.GetCPULoad(); !(math.Abs(g-load) <= 0.0101+load*1e-3) {
					t.Fatalf("a load of %v%% is shown as %v%%", load, g)
				}
				if !strings.Contains(ap.AudioReport(), fmt.Sprintf("%.2f%%", ap.GetCPULoad())) {
					t.Fatalf("the audio report lacks the load %.2f%%:\n%s", ap.GetCPULoad(), ap.AudioReport())
				}
			}
		}
		all := p.GetAllMeasurements()
		if len(all) != len(model) {
			t.Fatalf("%d measurements, expected %d", len(all), len(model))
		}
		rep := parseReport(t, p.Report())
		if glob {
			rep = parseReport(t, debug.ProfilingReport())
		}
		for nm, m := range model {
			w := m.stats()
			if g := rep[nm]; g != w {
				t.Fatalf("%q is reported as %+v, expected %+v", nm, g, w)
			}
			one, ok := p.GetMeasurement(nm)
			if !ok || all[nm] == nil {
				t.Fatalf("no measurement of %q", nm)
			}
			q := t.U(0, 100, "percentile")
			lo, hi := m.quantile(keep, q)
			for _, x := range []*debug.Measurement{one, all[nm]} {
				if x.Average() != w.avg {
					t.Fatalf("average of %q is %v, expected %v", nm, x.Average(), w.avg)
				}
				if g := x.Percentile(q); g < lo || g > hi {
					t.Fatalf("percentile %v of %q is %v, expected %v to %v", q, nm, g, lo, hi)
				}
				mn, _ := m.quantile(keep, 0)
				_, mx := m.quantile(keep, 100)
				if x.Percentile(0) != mn || x.Percentile(100) != mx {
					t.Fatalf("percentiles 0 and 100 are %v %v, expected %v %v", x.Percentile(0), x.Percentile(100), mn, mx)
				}
			}
		}
		for _, c := range copies {
			if c.m.Average() != c.avg || c.m.Percentile(50) != c.p50 || c.m.Percentile(100) != c.p100 {
				t.Fatalf("a measurement changed after it was returned")
			}
		}
		if _, ok := p.GetMeasurement("unknown"); ok {
			t.Fatalf("an unknown measurement exists")
		}
	}
	if glob {
		debug.EnableProfiling()
		debug.ResetProfiling()
	}
	t.Nontrivial(over || resets > 0)
}

var _ = bytes.NewBuffer
