// C02: hostile, truncated or failing state streams never corrupt the plugin.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"pgregory.net/rapid"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C02",
		Subs: []Sub{
			{Name: "truncated", Quick: 15000, Thorough: 600000, Fn: truncated,
				Rule: "one valid stream cut at every byte position, ending in EOF or in an injected read error that stays or passes; every cut is checked; non-trivial: at least one parameter and one cut inside the parameter table"},
			{Name: "mutated", Quick: 80000, Thorough: 4000000, Fn: mutated,
				Rule: "valid streams with bytes flipped, fields overwritten with edge values (NaN, infinities, out-of-range values, huge or negative counts, future versions), spliced or extended, and unstructured bytes; non-trivial: the stream starts with the right magic"},
			{Name: "failing-writer", Quick: 15000, Thorough: 600000, Fn: failingWriter,
				Rule: "a save whose writer fails after every possible number of bytes (short write, error, for good or once, in the custom section too); every fault point is checked; non-trivial: at least one parameter"},
		},
		Assumptions: []string{"the custom load callback reads from the stream it is given and nothing else"},
	})
}

func genReg(t *T) (*param.Registry, map[uint32]float64) {
	if n := t.Size(0, 0, 300, "many"); n > 20 {
		reg := param.NewRegistry()
		for _, id := range t.IDs(n, "ids") {
			p := param.New(id, "p").Range(-5, 5).Build()
			p.SetValue(t.U(0, 1, "v"))
			_ = reg.Add(p)
		}
		return reg, vals(reg)
	}
	ids := rapid.SliceOfNDistinct(rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32()), 0, 6, rapid.ID[uint32]).Draw(t.T, "ids")
	reg := param.NewRegistry()
	for _, id := range ids {
		p := param.New(id, "p").Range(-5, 5).Build()
		p.SetValue(t.U(0, 1, "v"))
		_ = reg.Add(p)
	}
	return reg, vals(reg)
}

func vals(reg *param.Registry) map[uint32]float64 {
	m := map[uint32]float64{}
	for _, p := range reg.All() {
		m[p.ID] = p.GetValue()
	}
	return m
}

func put(reg *param.Registry, v map[uint32]float64) {
	for id, x := range v {
		reg.Get(id).SetValue(x)
	}
}

func encode(version, count uint32, ids []uint32, v []float64, custom []byte, flag uint32) []byte {
	b := []byte("VST3GO")
	b = binary.LittleEndian.AppendUint32(b, version)
	b = binary.LittleEndian.AppendUint32(b, count)
	for i, id := range ids {
		b = binary.LittleEndian.AppendUint32(b, id)
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v[i]))
	}
	b = binary.LittleEndian.AppendUint32(b, flag)
	return append(b, custom...)
}

// sane checks what must hold after any load attempt: every parameter holds a
// finite value in [0,1] that it had before or that the stream carries for it.
func sane(t *T, what string, reg *param.Registry, before map[uint32]float64, allowed map[uint32][]float64) {
	for _, p := range reg.All() {
		v := p.GetValue()
		if !(v >= 0 && v <= 1) {
			t.Fatalf("%s: parameter %d is left at %v, outside [0,1]", what, p.ID, v)
		}
		if v == before[p.ID] {
			continue
		}
		ok := allowed == nil
		for _, a := range allowed[p.ID] {
			if v == math.Max(0, math.Min(1, a)) || (math.IsNaN(a)) {
				ok = true
			}
		}
		if !ok {
			t.Fatalf("%s: parameter %d went from %v to %v; the stream carries %v", what, p.ID, before[p.ID], v, allowed[p.ID])
		}
	}
	if int(reg.Count()) != len(before) {
		t.Fatalf("%s: the parameter set changed size from %d to %d", what, len(before), reg.Count())
	}
}

type cutReader struct {
	b    []byte
	err  error
	then []byte // what can be read after the error
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		c.b, c.then = c.then, nil
		return 0, c.err
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}

var errInjected = errors.New("injected")

func truncated(t *T) {
	reg, before := genReg(t)
	var ids []uint32
	var v []float64
	carried := map[uint32][]float64{}
	for id := range before {
		ids = append(ids, id)
	}
	sortU(ids)
	for _, id := range ids {
		x := t.U(0, 1, "saved")
		v = append(v, x)
		carried[id] = append(carried[id], x)
	}
	custom := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t.T, "custom")
	has := t.Bool("has")
	flag := uint32(0)
	if has {
		flag = 1
	} else {
		custom = nil
	}
	full := encode(1, uint32(len(ids)), ids, v, custom, flag)
	need := len(full) - len(custom)
	end := error(io.EOF)
	passing := false // the error passes and the rest can be read after it
	if t.Bool("ioerr") {
		end = errInjected
		passing = t.Bool("passing")
	}
	for cut := 0; cut <= len(full); cut++ {
		put(reg, before)
		m := state.NewManager(reg)
		var got []byte
		called := false
		m.SetCustomLoadFunc(func(r io.Reader) error {
			called = true
			got = make([]byte, len(custom))
			_, err := io.ReadFull(r, got)
			return err
		})
		var err error
		r := &cutReader{b: full[:cut:cut], err: end}
		if passing {
			r.then = full[cut:]
		}
		if p := Catch(func() { err = m.Load(r) }); p != "" {
			t.Fatalf("cut at byte %d of %d: panic %s", cut, len(full), p)
		}
		if cut < len(full) && err == nil {
			t.Fatalf("stream of %d bytes cut at %d loaded without an error", len(full), cut)
		}
		if cut < len(full) && end == errInjected && !errors.Is(err, errInjected) && cut > 0 {
			// io.ReadFull may translate only EOF
			t.Fatalf("cut at %d: the reader's error was replaced by %v", cut, err)
		}
		if cut == len(full) && err != nil {
			t.Fatalf("the whole stream does not load: %v", err)
		}
		if called != (has && cut >= need) {
			t.Fatalf("cut at %d of %d: custom load called=%v (has=%v)", cut, len(full), called, has)
		}
		if cut < 14 {
			for id, x := range before {
				if reg.Get(id).GetValue() != x {
					t.Fatalf("cut at %d: parameter %d changed although no entry was readable", cut, id)
				}
			}
		}
		sane(t, "truncated stream", reg, before, carried)
	}
	t.Desc("ids=%v v=%v custom=%d end=%v", ids, v, len(custom), end)
	t.Nontrivial(len(ids) > 0)
}

func sortU(x []uint32) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func hostile(t *T, label string) float64 {
	return Pick(t, label, math.NaN(), math.Inf(1), math.Inf(-1), -1, 2, 1e300, -0.0000001, 1.0000001, math.Copysign(0, -1),
		math.Float64frombits(0xfff8000000000001), math.SmallestNonzeroFloat64, 0.25, 0, 1)
}

func mutated(t *T) {
	reg, before := genReg(t)
	kind := t.Int(0, 5, "kind")
	var b []byte
	var ids []uint32
	var v []float64
	n := t.Size(0, 8, 300, "entries")
	known := []uint32{}
	for id := range before {
		known = append(known, id)
	}
	sortU(known)
	for i := 0; i < n; i++ {
		id := rapid.Uint32().Draw(t.T, "id")
		if len(known) > 0 && t.Int(0, 3, "known") > 0 {
			id = known[t.Int(0, len(known)-1, "which")]
		}
		ids = append(ids, id)
		if t.Bool("hostile") {
			v = append(v, hostile(t, "hv"))
		} else {
			v = append(v, t.U(0, 1, "nv"))
		}
	}
	allowed := map[uint32][]float64{}
	for i, id := range ids {
		allowed[id] = append(allowed[id], v[i])
	}
	mustErr := ""
	switch kind {
	case 0: // hostile values only
		b = encode(1, uint32(n), ids, v, nil, 0)
	case 1: // count disagrees with the table
		c := Pick(t, "count", uint32(n)+1, uint32(n)+1000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0)
		b = encode(1, c, ids, v, nil, 0)
		mustErr = "the parameter count does not match the table"
		if int32(c) < 0 {
			mustErr = "the parameter count is negative"
		}
		allowed = nil
	case 2: // future version
		b = encode(Pick(t, "version", uint32(2), 3, 1000, 0x7fffffff, 0x80000000, 0xffffffff), uint32(n), ids, v, nil, 0)
		mustErr = "the version is newer than supported"
		allowed = map[uint32][]float64{}
	case 3: // wrong magic
		b = encode(1, uint32(n), ids, v, nil, 0)
		i := t.Int(0, 5, "at")
		b[i] ^= byte(1 << t.Int(0, 7, "bit"))
		mustErr = "the magic is wrong"
		allowed = map[uint32][]float64{}
	case 4: // random byte flips after the magic
		b = encode(1, uint32(n), ids, v, []byte("xyz"), uint32(t.Int(0, 2, "flag")))
		for i := t.Int(1, 4, "flips"); i > 0; i-- {
			b[t.Int(6, len(b)-1, "at")] = rapid.Byte().Draw(t.T, "byte")
		}
		allowed = nil
	case 5:
		b = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t.T, "raw")
		if t.Bool("magic") {
			b = append([]byte("VST3GO\x01\x00\x00\x00"), b...)
		}
		allowed = nil
	}
	m := state.NewManager(reg)
	consumed := false
	if t.Bool("customload") {
		m.SetCustomLoadFunc(func(r io.Reader) error { consumed = true; _, err := io.ReadAll(r); return err })
	}
	var err error
	if p := Catch(func() { err = m.Load(bytes.NewReader(b)) }); p != "" {
		t.Fatalf("stream %x: panic %s", b, p)
	}
	sane(t, "mutated stream", reg, before, allowed)
	if mustErr != "" && err == nil {
		t.Fatalf("stream %x loaded without an error although %s", b, mustErr)
	}
	if mustErr != "" && consumed && kind != 1 {
		t.Fatalf("stream %x: custom load ran although %s", b, mustErr)
	}
	if kind == 0 && err != nil {
		t.Fatalf("well-formed stream %x rejected: %v", b, err)
	}
	// the instance is still usable: a save loads back
	var buf bytes.Buffer
	if e := m.Save(&buf); e != nil {
		t.Fatalf("Save after Load: %v", e)
	}
	want := vals(reg)
	if e := state.NewManager(reg).Load(&buf); e != nil {
		t.Fatalf("state saved after a bad load does not load: %v", e)
	}
	for id, x := range want {
		if reg.Get(id).GetValue() != x {
			t.Fatalf("parameter %d not restored after a bad load", id)
		}
	}
	t.Class([]string{"values", "count", "version", "magic", "flips", "raw"}[kind])
	t.Desc("%x err=%v", b, err)
	t.Nontrivial(len(b) >= 6 && string(b[:6]) == "VST3GO")
}

type failWriter struct {
	left  int
	short bool
	once  bool // works again after failing
	err   error
	b     bytes.Buffer
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := 0
		if f.short {
			n = f.left
		}
		f.b.Write(p[:n])
		f.left = 0
		if f.once {
			f.left = 1 << 30
		}
		return n, f.err
	}
	f.left -= len(p)
	return f.b.Write(p)
}

func failingWriter(t *T) {
	reg, before := genReg(t)
	m := state.NewManager(reg)
	custom := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t.T, "custom")
	if t.Bool("has") {
		m.SetCustomSaveFunc(func(w io.Writer) error {
			for i := range custom {
				if _, err := w.Write(custom[i : i+1]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	var full bytes.Buffer
	if err := m.Save(&full); err != nil {
		t.Fatalf("Save: %v", err)
	}
	short, once := t.Bool("short"), t.Bool("once")
	for k := 0; k <= full.Len(); k++ {
		w := &failWriter{left: k, short: short, once: once, err: errInjected}
		err := m.Save(w)
		if k < full.Len() && !errors.Is(err, errInjected) {
			t.Fatalf("the writer failed after %d of %d bytes but Save returned %v", k, full.Len(), err)
		}
		if k == full.Len() && (err != nil || !bytes.Equal(w.b.Bytes(), full.Bytes())) {
			t.Fatalf("Save to a sufficient writer: %v", err)
		}
		if !once && !bytes.HasPrefix(full.Bytes(), w.b.Bytes()) {
			t.Fatalf("after a failure at %d the written bytes are no prefix of the state", k)
		}
	}
	if cErr := func() error {
		m.SetCustomSaveFunc(func(io.Writer) error { return errInjected })
		return m.Save(io.Discard)
	}(); !errors.Is(cErr, errInjected) {
		t.Fatalf("the custom save callback failed but Save returned %v", cErr)
	}
	for id, x := range before {
		if reg.Get(id).GetValue() != x {
			t.Fatalf("Save changed parameter %d", id)
		}
	}
	t.Desc("params=%d custom=%d short=%v bytes=%d vals=%v", len(before), len(custom), short, full.Len(), before)
	t.Nontrivial(len(before) > 0)
}
