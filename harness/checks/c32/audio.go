package main

import (
	"fmt"
	"math"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	ddebug "github.com/justyntemme/vst3go/pkg/dsp/debug"
	"github.com/justyntemme/vst3go/pkg/framework/debug"
	. "vst3verif/vk"
)

var nan32 = float32(math.NaN())

func signal(t *T, label string) []float32 {
	n := Pick(t, label+".n", 0, 1, 2, 17, t.Int(1, 400, label+".len"))
	amp := Pick(t, label+".amp", 0.5, 1, 1.5, 0.99, 1e-4, 1e-5, 0, t.LogU(1e-12, 1e12, label+".level"))
	x := t.Signal(n, amp, label)
	if t.Int(0, 2, label+".offset") == 0 {
		off := float32(t.U(-0.5, 0.5, label+".dc"))
		for i := range x {
			x[i] += off
		}
	}
	for k := t.Int(0, 3, label+".specials"); k > 0 && n > 0; k-- {
		x[t.Int(0, n-1, label+".at")] = Pick(t, label+".v", nan32, 0, 0.99, -0.99, 1, -1, float32(math.Copysign(0, -1)), math.Nextafter32(0.99, 0))
	}
	return x
}

func analyze(t *T) {
	x := signal(t, "x")
	t.Nontrivial(len(x) > 1)
	orig := Clone(x)
	r := debug.AnalyzeBuffer(x)
	if t.Bool("own") {
		r = debug.NewAudioAnalyzer().Analyze(x)
	}
	var peak, ss, sum, abs float64
	nans, clips, cross := 0, 0, 0
	have := false
	neg := false
	for _, v := range x {
		f := float64(v)
		if f != f {
			nans++
			continue
		}
		peak = math.Max(peak, math.Abs(f))
		ss += f * f
		sum += f
		abs += math.Abs(f)
		if v >= 0.99 || v <= -0.99 {
			clips++
		}
		if have && neg != (f < 0) {
			cross++
		}
		have, neg = true, f < 0
	}
	n := float64(len(x))
	t.Desc("%d samples peak %v nan %d clip %d", len(x), peak, nans, clips)
	if float64(r.Peak) != peak {
		t.Fatalf("peak %v, expected %v", r.Peak, peak)
	}
	if r.NaNCount != nans || r.HasNaN != (nans > 0) {
		t.Fatalf("%d not-a-numbers (%v), expected %d", r.NaNCount, r.HasNaN, nans)
	}
	if r.ClippedSamples != clips || r.Clipping != (clips > 0) {
		t.Fatalf("%d clipped samples (%v), expected %d", r.ClippedSamples, r.Clipping, clips)
	}
	var dcLo, dcHi float64
	if len(x) > 0 {
		if x[0] == x[0] && r.ZeroCrossings != cross {
			t.Fatalf("%d zero crossings, expected %d", r.ZeroCrossings, cross)
		}
		valid := math.Max(n-float64(nans), 1)
		rl, rh := math.Sqrt(ss/n), math.Sqrt(ss/valid)
		if g := float64(r.RMS); !(g >= rl*(1-1e-4)-1e-17 && g <= rh*(1+1e-4)+1e-17) {
			t.Fatalf("RMS %v, expected %v to %v", g, rl, rh)
		}
		if rh < 0.9999e-4 && !r.Silent || rl > 1.0001e-4 && r.Silent {
			t.Fatalf("silent is %v at RMS %v", r.Silent, rl)
		}
		a, b := sum/n, sum/valid
		tol := 1e-5*abs/n + 1e-20
		dcLo, dcHi = math.Min(a, b)-tol, math.Max(a, b)+tol
		if g := float64(r.DC); !(g >= dcLo && g <= dcHi) {
			t.Fatalf("offset %v, expected %v to %v", g, dcLo, dcHi)
		}
	}

	name := Pick(t, "name", "in", "50%d", "")
	issues := debug.CheckBuffer(x, name)
	find := func(what string, must, may bool) string {
		k := 0
		s := ""
		for _, i := range issues {
			if strings.Contains(i, what) {
				k++
				s = i
			}
		}
		if k > 1 || k == 0 && must || k == 1 && !may {
			t.Fatalf("issue %q listed %d times, expected %v: %q", what, k, must, issues)
		}
		if k == 1 && !strings.HasPrefix(s, name+": ") {
			t.Fatalf("issue %q does not name %q", s, name)
		}
		return s
	}
	if s := find("NaN", nans > 0, nans > 0); nans > 0 && !strings.Contains(s, fmt.Sprintf(" %d ", nans)) {
		t.Fatalf("%q for %d not-a-numbers", s, nans)
	}
	if s := find("lipping", clips > 0, clips > 0); clips > 0 && !strings.Contains(s, fmt.Sprintf("(%d ", clips)) {
		t.Fatalf("%q for %d clipped samples", s, clips)
	}
	find("eak exceeds", peak > 1, peak > 1)
	lo, hi := math.Abs(dcLo), math.Abs(dcHi)
	if dcLo <= 0 && dcHi >= 0 {
		lo, hi = 0, math.Max(lo, hi)
	} else if lo > hi {
		lo, hi = hi, lo
	}
	find("offset", lo > 0.01*(1+1e-5), hi > 0.01*(1-1e-5))
	for _, i := range issues {
		if !strings.Contains(i, "NaN") && !strings.Contains(i, "lipping") && !strings.Contains(i, "eak exceeds") && !strings.Contains(i, "offset") {
			t.Fatalf("unknown issue %q", i)
		}
	}
	// the same issues arrive in the log as warnings
	out := &lines{}
	debug.SetOutput(out)
	debug.SetFlags(debug.FlagLevel)
	debug.SetLevel(debug.LogLevelDebug)
	debug.SetEnabled(true)
	debug.CheckAudioBuffer(x, name)
	w := out.take()
	if len(w) != len(issues) {
		t.Fatalf("%d issues, %d log lines: %q", len(issues), len(w), w)
	}
	for i := range w {
		if w[i] != "[WARN] "+issues[i]+"\n" {
			t.Fatalf("issue %q logged as %q", issues[i], w[i])
		}
	}
	debug.LogBufferStats(x, name)
	log := strings.Join(out.take(), "")
	for _, s := range []string{"'" + name + "'", fmt.Sprintf("Samples: %d\n", len(x)), fmt.Sprintf("Peak: %.3f\n", r.Peak), fmt.Sprintf("RMS: %.3f\n", r.RMS), fmt.Sprintf("DC: %.6f\n", r.DC)} {
		if !strings.Contains(log, s) {
			t.Fatalf("the logged statistics lack %q: %q", s, log)
		}
	}
	if strings.Contains(log, "NaN values") != (nans > 0) || strings.Contains(log, "Clipping") != (clips > 0) || strings.Contains(log, "Silent") != r.Silent {
		t.Fatalf("logged statistics %q for %+v", log, r)
	}

	compare(t, x)
	print(t, x, peak, nans)
	dump(t, x)
	SameBitsOrNaN(t, x, orig)
}

func SameBitsOrNaN(t *T, a, b []float32) {
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			t.Fatalf("the inspected buffer was changed at %d", i)
		}
	}
}

var (
	reDiff = regexp.MustCompile(`Samples different: (\d+) / (\d+)`)
	reMax  = regexp.MustCompile(`Max difference: (\S+) at sample (\d+)`)
	reAvg  = regexp.MustCompile(`Average difference: (\S+)`)
)

func compare(t *T, x []float32) {
	y := Clone(x)
	if t.Int(0, 7, "other length") == 0 {
		y = append(y, 0)
		if s := debug.CompareBuffers(x, y, 1); !strings.Contains(s, "length") {
			t.Fatalf("buffers of %d and %d compare as %q", len(x), len(y), s)
		}
		return
	}
	tol := Pick(t, "tolerance", 0.0, 1e-6, 0.01, 1)
	for k := t.Int(0, 5, "changes"); k > 0 && len(y) > 0; k-- {
		i := t.Int(0, len(y)-1, "at")
		if t.Int(0, 9, "nan") == 0 {
			y[i] = nan32
		} else {
			y[i] += float32(Pick(t, "by", 1.0, -1, tol, -tol, 2*tol, tol/2) * t.U(0.5, 1, "scale"))
		}
	}
	s := debug.CompareBuffers(x, y, float32(tol))
	cnt, worst, nan := 0, 0.0, false
	total := 0.0
	for i := range x {
		d := math.Abs(float64(x[i] - y[i]))
		if !(d <= float64(float32(tol))) {
			cnt++
			total += d
			if d != d {
				nan = true
			}
			worst = math.Max(worst, d)
		}
	}
	if cnt == 0 {
		if !strings.Contains(s, "identical") {
			t.Fatalf("buffers within %v compare as %q", tol, s)
		}
		return
	}
	m := reDiff.FindStringSubmatch(s)
	if m == nil || m[1] != fmt.Sprint(cnt) || m[2] != fmt.Sprint(len(x)) {
		t.Fatalf("%d of %d samples differ, reported %q", cnt, len(x), s)
	}
	m = reMax.FindStringSubmatch(s)
	if m == nil {
		t.Fatalf("no maximum in %q", s)
	}
	g, _ := strconv.ParseFloat(m[1], 64)
	at, _ := strconv.Atoi(m[2])
	if at < 0 || at >= len(x) {
		t.Fatalf("maximum at %d of %d", at, len(x))
	}
	d := math.Abs(float64(x[at] - y[at]))
	if nan {
		if g == g || d == d {
			t.Fatalf("maximum difference %v at %d with a not-a-number in the buffers", g, at)
		}
		return
	}
	if !Close(g, worst, 1e-6, 1e-6) || !Close(d, worst, 0, 0) {
		t.Fatalf("maximum difference %v at %d (there %v), expected %v", g, at, d, worst)
	}
	a, _ := strconv.ParseFloat(reAvg.FindStringSubmatch(s)[1], 64)
	if !Close(a, total/float64(cnt), 1e-6, 1e-5) {
		t.Fatalf("average difference %v, expected %v", a, total/float64(cnt))
	}
}

func print(t *T, x []float32, peak float64, nans int) {
	width := Pick(t, "width", 80, 0, -1, 1, 10, t.Int(1, 200, "w"))
	s := debug.PrintBuffer(x, width)
	if width <= 0 {
		width = 80
	}
	if len(x) == 0 || peak == 0 {
		if strings.Contains(s, "█") || strings.Count(s, "\n") > 0 && nans == 0 {
			t.Fatalf("%d samples of peak %v are drawn as %q", len(x), peak, s)
		}
		return
	}
	ln := strings.Split(strings.TrimSuffix(s, "\n"), "\n")[1:]
	per := (len(x) + width - 1) / width
	cols := (len(x) + per - 1) / per
	if len(ln) != cols || cols > width {
		t.Fatalf("%d samples at width %d are drawn in %d columns, expected %d", len(x), width, len(ln), cols)
	}
	for i, l := range ln {
		sum, abs, cnt := 0.0, 0.0, 0
		for j := i * per; j < (i+1)*per && j < len(x); j++ {
			sum += float64(x[j])
			abs += math.Abs(float64(x[j]))
			cnt++
		}
		h := sum / float64(cnt) / peak * 20
		e := abs/float64(cnt)/peak*20*1e-5 + 1e-6
		r := []rune(l)
		if len(r) != 41 || r[20] != '-' {
			t.Fatalf("column %d is %q", i, l)
		}
		if h != h {
			continue
		}
		up, down := 0, 0
		for k := 0; k < 20; k++ {
			if r[k] == '█' {
				up++
				if r[19] != '█' {
					t.Fatalf("column %d has a bar off the centre: %q", i, l)
				}
			}
			if r[21+k] == '█' {
				down++
			}
		}
		for k := 0; k < down; k++ {
			if r[21+k] != '█' {
				t.Fatalf("column %d has a bar off the centre: %q", i, l)
			}
		}
		if up > 0 && down > 0 {
			t.Fatalf("column %d goes both ways: %q", i, l)
		}
		g := up - down
		if g != int(h-e) && g != int(h+e) {
			t.Fatalf("column %d of level %v/20 has a bar of %d", i, h, g)
		}
	}
}

func dump(t *T, x []float32) {
	max := Pick(t, "max", 10, 0, -1, 1, len(x), len(x)+1, t.Int(1, 500, "m"))
	s := debug.DumpBuffer(x, max)
	if len(x) == 0 {
		return
	}
	if max <= 0 || max > len(x) {
		max = len(x)
	}
	var rows []string
	more := ""
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n")[3:] {
		if strings.HasPrefix(l, "...") {
			more = l
		} else {
			rows = append(rows, l)
		}
	}
	if len(rows) != max || (more != "") != (max < len(x)) || more != "" && !strings.Contains(more, fmt.Sprintf(" %d ", len(x)-max)) {
		t.Fatalf("%d of %d samples shown in %d rows, then %q", max, len(x), len(rows), more)
	}
	for i, l := range rows {
		f := strings.SplitN(l, " | ", 4)
		if len(f) != 4 || strings.TrimSpace(f[0]) != fmt.Sprint(i) || f[1] != fmt.Sprintf("%+.6f", x[i]) || f[2] != fmt.Sprintf("0x%08X", math.Float32bits(x[i])) {
			t.Fatalf("sample %d (%v) is dumped as %q", i, x[i], l)
		}
		if x[i] != x[i] {
			continue
		}
		p := (math.Max(-1, math.Min(1, float64(x[i]))) + 1) * 10
		g := strings.IndexByte(f[3], '|')
		ok := false
		for _, q := range []float64{p - 1e-5, p + 1e-5} {
			k := int(math.Max(0, math.Min(q, 19)))
			ok = ok || k == g
		}
		if !ok || len(f[3]) != 20 || strings.Count(f[3], "|") != 1 {
			t.Fatalf("sample %v has its mark at %d of %q", x[i], g, f[3])
		}
	}
}

func newPool(n int) *ddebug.BufferPool { return ddebug.NewBufferPool(n) }

type buf struct {
	name       string
	n, bytes   uint64
	size, capa int
	wide       bool
}

var sink []byte

func tracker(t *T) {
	ddebug.ResetAllocationTracking()
	on := t.Bool("on")
	if on {
		ddebug.EnableAllocationTracking()
	} else {
		ddebug.DisableAllocationTracking()
	}
	defer func() {
		ddebug.DisableAllocationTracking()
		ddebug.ResetAllocationTracking()
	}()
	size := t.Int(1, 64, "pool")
	pool := ddebug.NewBufferPool(size)
	var used [][]float32
	gets := int32(0)
	bufs := map[string]*buf{}
	var frameN, frameB, allN, allB uint64
	steps := t.Int(1, 20, "steps")
	t.Nontrivial(steps >= 3)
	t.Desc("on %v pool %d:", on, size)
	for ; steps > 0; steps-- {
		switch op := t.Int(0, 12, "op"); op {
		case 0, 1, 2, 3:
			name := Pick(t, "name", "a", "b", "out 1")
			n := t.Int(0, 50, "len")
			c := n + t.Int(0, 5, "spare")
			wide := t.Bool("wide")
			isNil := t.Int(0, 9, "nil") == 0
			if isNil {
				n, c = 0, 0
			}
			per := uint64(4)
			msg := Catch(func() {
				if wide {
					b := make([]float64, n, c)
					if isNil {
						b = nil
					}
					ddebug.CheckAllocation64(b, name)
				} else {
					b := make([]float32, n, c)
					if isNil {
						b = nil
					}
					ddebug.CheckAllocation(b, name)
				}
			})
			if wide {
				per = 8
			}
			bad := on && c == 0
			if (msg != "") != bad || bad && !strings.Contains(msg, name) {
				t.Fatalf("checking a buffer of capacity %d (on %v): %q", c, on, msg)
			}
			t.Desc(" check %d/%d", n, c)
			if on && !bad {
				b := bufs[name]
				if b == nil {
					b = &buf{name: name, size: n, capa: c, wide: wide}
					bufs[name] = b
				}
				b.n++
				b.bytes += uint64(n) * per
				frameN++
				frameB += uint64(n) * per
				allN++
				allB += uint64(n) * per
			}
		case 4:
			ddebug.StartFrame()
			frameN, frameB = 0, 0
			t.Desc(" frame")
		case 5:
			on = !on
			if on {
				ddebug.EnableAllocationTracking()
			} else {
				ddebug.DisableAllocationTracking()
			}
			t.Desc(" on %v", on)
		case 6:
			if t.Int(0, 2, "really") == 0 {
				ddebug.ResetAllocationTracking()
				bufs = map[string]*buf{}
				frameN, frameB, allN, allB = 0, 0, 0, 0
				t.Desc(" reset")
			}
		case 7:
			a, b := make([]float32, 4), make([]float32, 4)
			same := t.Bool("same")
			p := uintptr(unsafe.Pointer(&a[0]))
			if q := ddebug.VerifyBufferReuse(a, "a", 0); on && q != p || !on && q != 0 {
				t.Fatalf("the place of a buffer is %x, expected %x (on %v)", q, p, on)
			}
			msg := Catch(func() {
				if same {
					ddebug.VerifyBufferReuse(a[:2], "a", p)
				} else {
					ddebug.VerifyBufferReuse(b, "a", p)
				}
			})
			if (msg != "") != (on && !same) {
				t.Fatalf("reuse check of the same buffer (%v): %q", same, msg)
			}
			if q := ddebug.VerifyBufferReuse(a[:1], "a", 0); on && q != p {
				t.Fatalf("the place of a one-sample buffer is %x, expected %x", q, p)
			}
			if q := ddebug.VerifyBufferReuse(a[:0], "a", 0); q != 0 {
				t.Fatalf("the place of an empty buffer is %x", q)
			}
			if msg := Catch(func() { ddebug.VerifyBufferReuse(a[:0], "a", p) }); (msg != "") != on {
				t.Fatalf("reuse check of an empty buffer in place of %x (on %v): %q", p, on, msg)
			}
			runtime.KeepAlive(a)
		case 8, 9:
			if t.Bool("get") || len(used) == 0 {
				b := pool.Get()
				gets++
				if len(b) != size {
					t.Fatalf("the pool of %d gives %d samples", size, len(b))
				}
				for _, u := range used {
					if &u[0] == &b[0] {
						t.Fatalf("the pool gives a buffer that is in use")
					}
				}
				used = append(used, b)
			} else {
				i := t.Int(0, len(used)-1, "which")
				pool.Put(used[i])
				used = append(used[:i:i], used[i+1:]...)
			}
			t.Desc(" pool")
		case 10:
			if Catch(func() { pool.Put(make([]float32, size+1)) }) == "" || Catch(func() { pool.Put(nil) }) == "" {
				t.Fatalf("the pool took a buffer of another size")
			}
		case 11:
			if t.Int(0, 20, "really") > 0 {
				continue
			}
			// something that allocates is always seen, even if it is collected at once
			n := 1 << t.Int(5, 18, "bytes")
			gc := t.Bool("gc")
			if Catch(func() {
				ddebug.DetectAllocation(func() {
					sink = make([]byte, n)
					sink = nil
					if gc {
						runtime.GC()
					}
				})
			}) == "" {
				t.Fatalf("an allocation of %d bytes was not noticed (collected %v)", n, gc)
			}
			t.Desc(" allocate")
		case 12:
			if t.Int(0, 20, "really") > 0 {
				continue
			}
			// something that does not allocate passes (other goroutines of the process may allocate now and then)
			var a [8]float32
			ok := false
			for k := 0; k < 30 && !ok; k++ {
				ok = Catch(func() {
					ddebug.DetectAllocation(func() {
						for i := range a {
							a[i]++
						}
					})
				}) == ""
			}
			if !ok {
				t.Fatalf("a function without allocation is reported as allocating")
			}
		}
		if n, b := ddebug.EndFrame(); n != frameN || b != frameB {
			t.Fatalf("the frame has %d checks of %d bytes, expected %d of %d", n, b, frameN, frameB)
		}
		if made, use := pool.Stats(); int(use) != len(used) || made < use || made > gets {
			t.Fatalf("the pool made %d and lent %d buffers, expected %d lent of %d", made, use, len(used), gets)
		}
		rep := ddebug.GetAllocationReport()
		for _, w := range []string{fmt.Sprintf("Total Allocations: %d\n", allN), fmt.Sprintf("Total Bytes: %d\n", allB)} {
			if !strings.Contains(rep, w) {
				t.Fatalf("the report lacks %q", w)
			}
		}
		if k := strings.Count(rep, "\nBuffer: "); k != len(bufs) {
			t.Fatalf("the report lists %d buffers, expected %d", k, len(bufs))
		}
		for _, b := range bufs {
			_, s, ok := strings.Cut(rep, "\nBuffer: "+b.name+"\n")
			if !ok {
				t.Fatalf("the report lacks %q", b.name)
			}
			s, _, _ = strings.Cut(s, "Stack Trace")
			if !strings.Contains(s, fmt.Sprintf("Access Count: %d\n", b.n)) || !strings.Contains(s, fmt.Sprintf("Total Bytes: %d\n", b.bytes)) {
				t.Fatalf("%q is reported as %q, expected %d accesses of %d bytes", b.name, s, b.n, b.bytes)
			}
			k := 1
			if b.wide { // counted in the size of a single-precision sample
				k = 2
			}
			if w := fmt.Sprintf("Size: %d, Capacity: %d\n", b.size*k, b.capa*k); !strings.Contains(s, w) {
				t.Fatalf("%q is reported as %q, first seen as %q", b.name, s, w)
			}
		}
	}
}
