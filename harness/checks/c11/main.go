// C11: plugin identity and processor life cycle.
package main

import (
	"crypto/md5"
	"errors"
	"fmt"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	. "vst3verif/vk"

	"pgregory.net/rapid"
)

func main() {
	Main(Check{
		ID: "C11",
		Subs: []Sub{
			{Name: "uid", Quick: 200000, Thorough: 1000000, Fn: uid,
				Rule: "pairs of ids (arbitrary strings, published ids and strings that differ from one another by one character) with arbitrary other metadata against an independent derivation of the identifier; non-trivial: two different ids"},
			{Name: "lifecycle", Quick: 110000, Thorough: 550000, Fn: lifecycle,
				Rule: "sequences of initialize, activate, deactivate and process with callbacks installed, replaced, removed and failing, against a log of what must be called with what; non-trivial: a failing callback or a deactivation with reset"},
		},
	})
}

var published = map[string]string{
	"com.vst3go.examples.gain":   "123456789abcdef01122334455667788",
	"com.vst3go.examples.filter": "87654321fedcba988877665544332211",
	"com.vst3go.examples.delay":  "aabbccddeeff00119988776655443322",
}

func wantUID(id string) string {
	if u, ok := published[id]; ok {
		return u
	}
	h := md5.Sum([]byte(id))
	h[6] = h[6]&0x0f | 0x40
	h[8] = h[8]&0x3f | 0x80
	return fmt.Sprintf("%x", h[:])
}

func genID(t *T) string {
	switch t.Int(0, 7, "kind") {
	case 7:
		return strings.Repeat(Pick(t, "part", "a", "com.x.", "é"), t.Size(10, 60, 3000, "times")) + Pick(t, "end", "", "1", "2")
	case 0:
		return Pick(t, "pub", "com.vst3go.examples.gain", "com.vst3go.examples.filter", "com.vst3go.examples.delay")
	case 1:
		return Pick(t, "pub", "com.vst3go.examples.gain", "com.vst3go.examples.filter", "com.vst3go.examples.delay") + Pick(t, "sfx", " ", "s", "2", "\x00")
	case 2:
		return Pick(t, "up", "COM.VST3GO.EXAMPLES.GAIN", "com.vst3go.examples.Gain", " com.vst3go.examples.gain", "com.vst3go.examples.compressor", "")
	case 3:
		return rapid.String().Draw(t.T, "id")
	}
	return fmt.Sprintf("com.%s.%s", rapid.StringMatching(`[a-zA-Z]{1,8}`).Draw(t.T, "v"), rapid.StringMatching(`[a-zA-Z0-9 ]{1,16}`).Draw(t.T, "p"))
}

func uid(t *T) {
	a := plugin.Info{ID: genID(t), Name: rapid.String().Draw(t.T, "n"), Version: Pick(t, "ver", "1.0.0", "2.1", ""), Vendor: "x", Category: "Fx"}
	b := plugin.Info{ID: genID(t)}
	if t.Bool("near") && len(a.ID) > 0 {
		r := []byte(a.ID)
		i := t.Int(0, len(r)-1, "i")
		r[i] ^= byte(1 << t.Int(0, 7, "bit"))
		b.ID = string(r)
	}
	t.Desc("%q %q", a.ID, b.ID)
	t.Nontrivial(a.ID != b.ID)
	for _, x := range []plugin.Info{a, b, {ID: a.ID, Name: "other", Version: "9", Vendor: "v", Category: "Instrument"}} {
		u := x.UID()
		if got := fmt.Sprintf("%x", u[:]); got != wantUID(x.ID) {
			t.Fatalf("id %q (%+v) has UID %s, it must stay %s", x.ID, x, got, wantUID(x.ID))
		}
		if err := x.ValidateUID(); (err == nil) != (x.ID != "") {
			t.Fatalf("ValidateUID of %q: %v", x.ID, err)
		}
		base := plugin.NewBase(&x)
		if base.Info != x || base.Parameters() == nil || base.Parameters().Count() != 0 {
			t.Fatalf("a new plugin base carries %+v, %+v was given", base.Info, x)
		}
	}
	if (a.UID() == b.UID()) != (a.ID == b.ID) {
		t.Fatalf("ids %q and %q: equal UIDs %v", a.ID, b.ID, a.UID() == b.UID())
	}
}

func lifecycle(t *T) {
	var cfg *bus.Configuration
	if t.Bool("buses") {
		cfg = bus.NewMonoConfiguration()
	}
	var log, want []string
	var procs int
	var bp *plugin.BaseProcessor
	var sp *plugin.SimpleProcessor
	simple := t.Bool("simple")
	withFn := t.Bool("fn")
	if simple {
		var fn func(*process.Context)
		if withFn {
			fn = func(c *process.Context) { procs++; log = append(log, fmt.Sprintf("process %v", c.SampleRate)) }
		}
		sp = plugin.NewSimpleProcessor(cfg, fn)
		bp = sp.BaseProcessor
	} else {
		bp = plugin.NewBaseProcessor(cfg)
	}
	if cfg != nil && bp.GetBuses() != cfg {
		t.Fatalf("the processor reports other buses than it was given")
	}
	if cfg == nil {
		b := bp.GetBuses()
		i, o := b.GetBusInfo(bus.MediaTypeAudio, bus.DirectionInput, 0), b.GetBusInfo(bus.MediaTypeAudio, bus.DirectionOutput, 0)
		if i == nil || o == nil || i.ChannelCount != 2 || o.ChannelCount != 2 {
			t.Fatalf("the default buses are not stereo in and out")
		}
	}
	if bp.GetParameters() == nil || bp.GetParameters() != bp.Parameters() || bp.GetParameters().Count() != 0 {
		t.Fatalf("no empty registry")
	}
	if bp.GetLatencySamples() != 0 || bp.GetTailSamples() != 0 || bp.SampleRate() != 0 {
		t.Fatalf("latency %d, tail %d, rate %v before initialization", bp.GetLatencySamples(), bp.GetTailSamples(), bp.SampleRate())
	}
	var initErr, actErr error
	var hasInit, hasAct, hasReset bool
	rate := 0.0
	seq := 0
	nt := false
	for op := t.Size(1, 14, 100, "ops"); op > 0; op-- {
		seq++
		tag := seq
		switch t.Int(0, 7, "op") {
		case 0:
			hasInit = t.Int(0, 3, "on") != 0
			if !hasInit {
				bp.OnInitialize(nil)
				break
			}
			initErr = nil
			if t.Bool("fail") {
				initErr = fmt.Errorf("init %d", tag)
			}
			e := initErr
			bp.OnInitialize(func(sr float64, n int32) error {
				log = append(log, fmt.Sprintf("init %v %d rate %v", sr, n, bp.SampleRate()))
				return e
			})
		case 1:
			hasAct = t.Int(0, 3, "on") != 0
			if !hasAct {
				bp.OnSetActive(nil)
				break
			}
			actErr = nil
			if t.Bool("fail") {
				actErr = fmt.Errorf("act %d", tag)
			}
			e := actErr
			bp.OnSetActive(func(a bool) error { log = append(log, fmt.Sprintf("active %v", a)); return e })
		case 2:
			hasReset = t.Int(0, 3, "on") != 0
			if !hasReset {
				bp.OnReset(nil)
				break
			}
			bp.OnReset(func() { log = append(log, "reset") })
		case 3:
			if sp != nil {
				sr := t.Rate("csr")
				c := process.NewContext(8, param.NewRegistry())
				c.SampleRate = sr
				sp.ProcessAudio(c)
				if withFn {
					want = append(want, fmt.Sprintf("process %v", sr))
				}
			}
		case 4, 5:
			sr, n := t.Rate("sr"), int32(t.Int(1, 8192, "n"))
			err := bp.Initialize(sr, n)
			rate = sr
			var we error
			if hasInit {
				want = append(want, fmt.Sprintf("init %v %d rate %v", sr, n, sr))
				we = initErr
			}
			nt = nt || we != nil
			if !errors.Is(err, we) && err != we || (err == nil) != (we == nil) {
				t.Fatalf("Initialize returns %v, its callback %v", err, we)
			}
			t.Desc(" init")
		case 6, 7:
			on := t.Bool("active")
			err := bp.SetActive(on)
			var we error
			if !on && hasReset {
				want = append(want, "reset")
				nt = true
			}
			if hasAct {
				want = append(want, fmt.Sprintf("active %v", on))
				we = actErr
			}
			nt = nt || we != nil
			if !errors.Is(err, we) && err != we || (err == nil) != (we == nil) {
				t.Fatalf("SetActive(%v) returns %v, its callback %v", on, err, we)
			}
			t.Desc(" active=%v", on)
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			t.Fatalf("callbacks so far %v, expected %v", log, want)
		}
		if bp.SampleRate() != rate {
			t.Fatalf("sample rate %v, initialized with %v", bp.SampleRate(), rate)
		}
	}
	t.Desc(" %d", len(want))
	t.Nontrivial(nt)
}
