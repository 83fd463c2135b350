// Package vk is the driver shared by every check: it runs generated cases
// through pgregory.net/rapid, counts what was generated, shrinks failures,
// writes the replay file and the evidence file, and decides the exit status.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// T is one generated case.
type T struct {
	*rapid.T
	c       *counter
	desc    strings.Builder
	nontriv bool
	classes []string
	drawn   map[string][2]float64 // first and last value drawn under a label
	scale   int                   // of this case: 0 not drawn yet, 1 ordinary, 2 big
}

// Fatalf ends the case as a failure; long values are cut short.
func (t *T) Fatalf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 2000 {
		s = s[:1400] + " ... " + s[len(s)-500:]
	}
	t.T.Fatalf("%s", s)
}

// Nontrivial marks the case as non-trivial by the rule of its sub-check.
func (t *T) Nontrivial(b bool) {
	if b {
		t.nontriv = true
	}
}

// Class counts the case under a label (reported in the evidence file).
func (t *T) Class(name string) { t.classes = append(t.classes, name) }

// Desc appends to the description of the case, which identifies it (for
// counting distinct cases) and is what the evidence file shows as a sample.
func (t *T) Desc(format string, args ...any) {
	if t.desc.Len() < 1<<16 {
		fmt.Fprintf(&t.desc, format, args...)
	}
}

// Sub is one generated sub-check of a property.
type Sub struct {
	Name     string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases at the quick tier
	Thorough int    // cases at the thorough tier
	Steps    int    // average Repeat steps (0: default 30)
	Fn       func(*T)
}

// Finding is a specific input known (or once known) to fail.
type Finding struct {
	Key  string
	What string
	Fn   func() error // nil: the property holds on this input
}

type counter struct {
	evals, nontriv int
	distinct       map[uint64]struct{}
	samples        []string
	classes        map[string]int
	frozen         bool
}

type subEvidence struct {
	Name               string         `json:"name"`
	Rule               string         `json:"rule"`
	Evaluations        int            `json:"evaluations"`
	NontrivialTotal    int            `json:"nontrivial"`
	DistinctNontrivial int            `json:"distinct_nontrivial"`
	Classes            map[string]int `json:"classes,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Checks   int      `json:"checks"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
	Failfile string   `json:"rapid_failfile"`
	How      string   `json:"how_to_replay"`
}

// tb is the rapid.TB behind a sub-check.
type tb struct {
	name   string
	failed bool
	log    []string
}

type stop struct{}

func (b *tb) Helper()      {}
func (b *tb) Name() string { return b.name }
func (b *tb) Logf(f string, a ...any) {
	if len(b.log) < 4000 {
		b.log = append(b.log, fmt.Sprintf(f, a...))
	}
}
func (b *tb) Log(a ...any)              { b.Logf("%s", fmt.Sprintln(a...)) }
func (b *tb) Skipf(f string, a ...any)  { b.Logf(f, a...); panic(stop{}) }
func (b *tb) Skip(a ...any)             { b.Log(a...); panic(stop{}) }
func (b *tb) SkipNow()                  { panic(stop{}) }
func (b *tb) Errorf(f string, a ...any) { b.Logf(f, a...); b.failed = true }
func (b *tb) Error(a ...any)            { b.Log(a...); b.failed = true }
func (b *tb) Fatalf(f string, a ...any) { b.Errorf(f, a...); panic(stop{}) }
func (b *tb) Fatal(a ...any)            { b.Error(a...); panic(stop{}) }
func (b *tb) FailNow()                  { b.failed = true; panic(stop{}) }
func (b *tb) Fail()                     { b.failed = true }
func (b *tb) Failed() bool              { return b.failed }

var (
	curSub   atomic.Value // string
	curIter  atomic.Int64
	curStart atomic.Int64 // unix nanos, 0 when idle
	curCPU   atomic.Int64
	curEpoch atomic.Int64
	state    struct {
		sync.Mutex
		id, tier, evid, replays string
		seed                    uint64
		start                   time.Time
		subs                    []subEvidence
		samples                 []string
		violations              int
		assumptions             []string
		known                   []string
	}
)

// Tier is "quick" or "thorough".
func Tier() string { return state.tier }

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// watchdog turns a case that never ends into a report. Cases take
// milliseconds; the limits are CPU seconds, or minutes with no CPU used at all
// (a deadlock), so that a busy machine cannot trip it.
func watchdog() {
	var lastEpoch int64 = -1
	var since time.Time
	var cpu0 int64
	for {
		time.Sleep(500 * time.Millisecond)
		e := curEpoch.Load()
		if curStart.Load() == 0 || e != lastEpoch {
			lastEpoch = e
			since = time.Now()
			cpu0 = cpuNow()
			continue
		}
		used := time.Duration(cpuNow() - cpu0)
		wall := time.Since(since)
		var ms runtime.MemStats
		why := ""
		switch {
		case used > 60*time.Second:
			why = fmt.Sprintf("one case used %v of CPU without returning (cases take milliseconds): it does not terminate", used)
		case wall > 150*time.Second && used < 2*time.Second:
			why = fmt.Sprintf("one case made no progress for %v: deadlock", wall)
		default:
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				why = fmt.Sprintf("one case holds %d MiB of heap: memory use is unbounded", ms.HeapAlloc>>20)
			}
		}
		if why != "" {
			sub, _ := curSub.Load().(string)
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			violation(sub, fmt.Sprintf("%s (case #%d)", why, curIter.Load()), []string{string(buf[:n])}, "", 0)
			writeEvidence()
			os.Exit(1)
		}
	}
}

func violation(sub, msg string, log []string, failfile string, checks int) {
	state.violations++
	_ = os.MkdirAll(state.replays, 0o755)
	r := replayFile{Property: state.id, Sub: sub, Tier: state.tier, Seed: state.seed, Checks: checks, Message: msg, Log: log, Failfile: failfile}
	clean := regexp.MustCompile(`[^A-Za-z0-9_]+`).ReplaceAllString(sub, "_")
	path := filepath.Join(state.replays, fmt.Sprintf("%s-%s-seed%d.json", state.id, clean, state.seed))
	r.How = fmt.Sprintf("./check %s --replay %s", state.id, path)
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	m := strings.ReplaceAll(msg, "\n", " | ")
	if len(m) > 600 {
		m = m[:600] + "..."
	}
	fmt.Printf("FAILED %s/%s: %s\n", state.id, sub, m)
	fmt.Printf("VIOLATION property=%s replay=%s\n", state.id, path)
}

func writeEvidence() {
	evals, dn := 0, 0
	var rules []string
	for _, s := range state.subs {
		evals += s.Evaluations
		dn += s.DistinctNontrivial
		rules = append(rules, s.Name+": "+s.Rule)
	}
	ev := map[string]any{
		"property": state.id, "tier": state.tier, "seed": state.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": dn,
			"rule": strings.Join(rules, " || "), "samples": state.samples, "sub_checks": state.subs,
		},
		"wall_s":     math.Round(time.Since(state.start).Seconds()*1000) / 1000,
		"violations": state.violations, "assumptions": state.assumptions, "known_findings": state.known,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Dir(state.evid), 0o755)
		err = os.WriteFile(state.evid, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("ERROR: evidence:", err)
		os.Exit(3)
	}
}

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func mustSet(name, val string) {
	if err := flag.Set(name, val); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(3)
	}
}

// Check is everything that decides one property.
type Check struct {
	ID          string
	Subs        []Sub
	Findings    []Finding
	Assumptions []string
}

var failfileRe = regexp.MustCompile(`-rapid\.failfile="([^"]+)"`)

// Main runs the check and exits.
func Main(c Check) {
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	evid := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	replay := flag.String("replay", "", "")
	known := flag.String("known", "", "known-findings file")
	only := flag.String("sub", "", "run only this sub-check")
	scale := flag.Float64("scale", 1, "multiply the case counts")
	shrink := flag.String("shrink", "20s", "")
	testing.Init()
	flag.Parse()
	debug.SetGCPercent(400)
	s := uint64(*seed)
	if s == 0 {
		s = 0x9e3779b9
	}
	state.id, state.tier, state.seed, state.start = c.ID, *tier, s, time.Now()
	state.evid, state.replays, state.assumptions = *evid, *replays, c.Assumptions
	go watchdog()

	// rapid writes its fail file below the working directory.
	work, err := os.MkdirTemp("", "vk-"+c.ID+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(3)
	}
	if err := os.Chdir(work); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(3)
	}
	code := 0
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("ERROR: %v\n%s\n", r, debug.Stack())
			code = 3
		}
		os.RemoveAll(work)
		os.Exit(code)
	}()

	var rep replayFile
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rep)
		}
		if err != nil {
			fmt.Println("ERROR:", err)
			code = 3
			return
		}
		*only = rep.Sub
		if rep.Failfile != "" {
			ff := filepath.Join(work, "replay.fail")
			_ = os.WriteFile(ff, []byte(rep.Failfile), 0o644)
			mustSet("rapid.failfile", ff)
		}
	}

	listed := loadKnown(*known, c.ID)
	for i := range c.Findings {
		f := &c.Findings[i]
		if *only != "" && *only != "finding:"+f.Key {
			continue
		}
		curSub.Store("finding:" + f.Key)
		curEpoch.Add(1)
		curStart.Store(1)
		err := safely(f.Fn)
		curStart.Store(0)
		curEpoch.Add(1)
		state.subs = append(state.subs, subEvidence{Name: "finding:" + f.Key, Rule: "regression input: " + f.What, Evaluations: 1, DistinctNontrivial: 1, NontrivialTotal: 1})
		if err == nil {
			continue
		}
		if listed[f.Key] {
			line := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %v", c.ID, f.What, err)
			state.known = append(state.known, line)
			fmt.Println(line)
			continue
		}
		violation("finding:"+f.Key, f.What+": "+err.Error(), nil, "", 0)
		code = 1
	}

	if *only != "" && !slices.ContainsFunc(c.Subs, func(s Sub) bool { return s.Name == *only }) {
		fmt.Println("ERROR: no sub-check", *only)
		os.Exit(3)
	}
	for i := range c.Subs {
		sub := &c.Subs[i]
		if *only != "" && *only != sub.Name {
			continue
		}
		n := sub.Quick
		if *tier == "thorough" {
			n = sub.Thorough
		}
		n = int(float64(n) * *scale)
		if n < 1 {
			n = 1
		}
		if *replay != "" {
			if rep.Checks > 0 {
				n = rep.Checks
			}
			s = rep.Seed
		}
		steps := sub.Steps
		if steps == 0 {
			steps = 30
		}
		sd := (s*0x9e3779b97f4a7c15 ^ hash(c.ID+"/"+sub.Name)) | 1
		mustSet("rapid.seed", fmt.Sprint(sd))
		mustSet("rapid.checks", fmt.Sprint(n))
		mustSet("rapid.steps", fmt.Sprint(steps))
		mustSet("rapid.shrinktime", *shrink)

		cnt := &counter{distinct: map[uint64]struct{}{}, classes: map[string]int{}}
		b := &tb{name: "S" + fmt.Sprint(i)}
		curSub.Store(sub.Name)
		t0 := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(b, func(rt *rapid.T) {
				t := &T{T: rt, c: cnt}
				curIter.Add(1)
				curEpoch.Add(1)
				curStart.Store(1)
				done := false
				defer func() {
					curStart.Store(0)
					curEpoch.Add(1)
					if !done {
						cnt.frozen = true
					}
				}()
				sub.Fn(t)
				done = !rt.Failed()
				if !done || cnt.frozen {
					return
				}
				cnt.evals++
				for _, cl := range t.classes {
					cnt.classes[cl]++
				}
				if t.nontriv {
					cnt.nontriv++
					d := t.desc.String()
					h := hash(d)
					if _, ok := cnt.distinct[h]; !ok {
						cnt.distinct[h] = struct{}{}
						if len(cnt.samples) < 2 {
							if len(d) > 400 {
								d = d[:400] + "..."
							}
							cnt.samples = append(cnt.samples, sub.Name+": "+d)
						}
					}
				}
			})
		}()
		se := subEvidence{Name: sub.Name, Rule: sub.Rule, Evaluations: cnt.evals, NontrivialTotal: cnt.nontriv, DistinctNontrivial: len(cnt.distinct), Classes: cnt.classes}
		state.subs = append(state.subs, se)
		state.samples = append(state.samples, cnt.samples...)
		if os.Getenv("VK_VERBOSE") != "" {
			fmt.Printf("%s/%s: %d cases, %d non-trivial, %d distinct, %.2fs %v\n", c.ID, sub.Name, cnt.evals, cnt.nontriv, len(cnt.distinct), time.Since(t0).Seconds(), cnt.classes)
		}
		if b.failed {
			var ff string
			msg := ""
			for _, l := range b.log {
				if strings.HasPrefix(l, "[rapid] ") && strings.Contains(l, " after ") || strings.Contains(l, "flaky") || strings.Contains(l, "only generated") {
					msg = l
				}
				if m := failfileRe.FindStringSubmatch(l); m != nil {
					if x, err := os.ReadFile(m[1]); err == nil {
						ff = string(x)
					}
				}
			}
			if strings.Contains(msg, "only generated") {
				fmt.Printf("ERROR %s/%s: %s\n", c.ID, sub.Name, msg)
				code = 3
				return
			}
			if i := strings.Index(msg, "\nTo reproduce"); i > 0 {
				tail := ""
				if j := strings.Index(msg, "Traceback:"); j > 0 {
					tail = " " + strings.ReplaceAll(strings.TrimSuffix(strings.TrimSpace(msg[j:]), "Failed test output:"), "\n", " ")
				}
				msg = msg[:i] + tail
			}
			violation(sub.Name, msg, b.log, ff, n)
			code = 1
		} else if *replay == "" && cnt.nontriv == 0 {
			fmt.Printf("ERROR %s/%s: no non-trivial case was generated\n", c.ID, sub.Name)
			code = 3
			return
		}
	}
	if *replay != "" {
		if code == 0 {
			fmt.Println("replay: the property holds on the recorded case")
		}
		return
	}
	writeEvidence()
	if code == 0 {
		n, d := 0, 0
		for _, s := range state.subs {
			n += s.Evaluations
			d += s.DistinctNontrivial
		}
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d %.1fs\n", c.ID, *tier, s, n, d, time.Since(state.start).Seconds())
	}
}

func safely(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return fn()
}

// loadKnown reads lines "finding: property=<id> key=<key> ...".
func loadKnown(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+)`)
	for _, l := range strings.Split(string(b), "\n") {
		if x := re.FindStringSubmatch(l); x != nil && x[1] == id {
			m[x[2]] = true
		}
	}
	return m
}
