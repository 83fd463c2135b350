// C01: saved plugin state restores every parameter and the custom payload.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"testing/iotest"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"pgregory.net/rapid"
	"vst3verif/conc"
	. "vst3verif/vk"
)

func main() {
	Main(Check{
		ID: "C01",
		Subs: []Sub{
			{Name: "roundtrip", Quick: 40000, Thorough: 2000000, Fn: roundtrip,
				Rule: "random parameter sets (0-40 ids over the full 32-bit range), values set through every setter, optional custom payload, readers that return short reads; non-trivial: at least one parameter away from its default"},
			{Name: "versions", Quick: 40000, Thorough: 2000000, Fn: versions,
				Rule: "save with one parameter set, load into an instance with parameters added, removed, reordered and re-ranged; non-trivial: the two sets overlap and differ"},
			{Name: "format", Quick: 40000, Thorough: 2000000, Fn: format,
				Rule: "saved bytes against an independent encoder of the on-disk format, and streams written by that encoder loaded back; non-trivial: at least two parameters"},
			{Name: "history", Quick: 28000, Thorough: 600000, Fn: history,
				Rule: "sequences of value changes, saves, loads of any earlier save, against a map of snapshots; non-trivial: a load of a save that is not the newest"},
			{Name: "midsave", Quick: 130000, Thorough: 650000, Fn: midsave,
				Rule: "parameters change or are registered between the writes of one save (the writer is the schedule); the stream must still load completely and every value must be one the parameter had; non-trivial: an action fired during the save"},
			{Name: "threads", Quick: 1500, Thorough: 30000, Fn: func(t *T) {
				if t.Bool("register") {
					conc.Registration(t)
				} else {
					conc.Values(t)
				}
			}, Rule: "a state is saved by several threads while others write or register parameters; it loads completely, holds every parameter registered before the save began and only values that were written; non-trivial: a save or listing came in the middle of the writes"},
		},
		Assumptions: []string{"parameters are registered under distinct ids, as hosts require", "custom save and load callbacks belong to the same plugin"},
	})
}

type spec struct {
	id       uint32
	min, max float64
	def      float64
}

func genIDs(t *T, label string) []uint32 {
	if n := t.Size(0, 0, 3000, label+".n"); n > 0 {
		t.Class("many parameters")
		return t.IDs(n, label)
	}
	return rapid.SliceOfNDistinct(rapid.OneOf(rapid.Uint32Range(0, 12), rapid.Uint32()), 0, 40, rapid.ID[uint32]).Draw(t.T, label)
}

func genParam(t *T, id uint32) *param.Parameter {
	b := param.New(id, fmt.Sprintf("p%d", id))
	switch t.Int(0, 4, "kind") {
	case 0:
		lo := t.U(-1e4, 1e4, "min")
		b.Range(lo, lo+t.U(1e-3, 1e5, "span")).Default(lo)
	case 1:
		b.Toggle()
	case 2:
		b.Range(20, 20000).Default(440)
	case 3:
		b.Range(0, 7).Steps(7)
	}
	switch t.Int(0, 5, "flag") {
	case 0:
		b.Hidden()
	case 1:
		b.ReadOnly()
	case 2:
		b.Bypass()
	}
	p := b.Build()
	if t.Int(0, 3, "flags") == 0 {
		p.Flags = uint32(t.Int(0, 1<<16-1, "bits"))
	}
	return p
}

func move(t *T, p *param.Parameter) {
	switch t.Int(0, 5, "move") {
	case 0:
	case 1:
		p.SetValue(0)
	case 2:
		p.SetValue(1)
	case 3:
		p.SetPlainValue(t.U(p.Min, p.Max, "plain"))
	case 4:
		p.SetValue(rapid.Float64Range(0, 1).Draw(t.T, "tiny"))
	default:
		p.SetValue(t.U(0, 1, "norm"))
	}
}

func reader(t *T, b []byte) io.Reader {
	r := io.Reader(bytes.NewReader(b))
	switch t.Int(0, 3, "reader") {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.HalfReader(r)
	case 3:
		r = iotest.DataErrReader(r)
	}
	return r
}

type payload struct {
	data []byte
	got  []byte
	read bool
}

func customSave(data []byte, chunks int) state.CustomSaveFunc {
	return func(w io.Writer) error {
		for i := 0; i < len(data); {
			n := (len(data) + chunks - 1) / chunks
			if i+n > len(data) {
				n = len(data) - i
			}
			if _, err := w.Write(data[i : i+n]); err != nil {
				return err
			}
			i += n
		}
		return nil
	}
}

func roundtrip(t *T) {
	ids := genIDs(t, "ids")
	reg := param.NewRegistry()
	moved := false
	for _, id := range ids {
		p := genParam(t, id)
		if err := reg.Add(p); err != nil {
			t.Fatalf("adding parameter %d: %v", id, err)
		}
		move(t, p)
		if p.GetValue() != p.DefaultValue {
			moved = true
		}
		t.Desc(" %d=%v", id, p.GetValue())
	}
	m := state.NewManager(reg)
	var custom []byte
	hasCustom := t.Bool("custom")
	if hasCustom {
		if n := t.Size(0, 0, 1<<18, "payload"); n > 0 {
			custom = t.Bytes(n, "payload")
		} else {
			custom = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t.T, "payload")
		}
		m.SetCustomSaveFunc(customSave(custom, t.Int(1, 4, "chunks")))
		t.Desc(" payload=%d", len(custom))
		t.Class("custom payload")
	}
	var buf bytes.Buffer
	if err := m.Save(&buf); err != nil {
		t.Fatalf("Save to memory failed: %v", err)
	}
	want := map[uint32]uint64{}
	for _, p := range reg.All() {
		want[p.ID] = math.Float64bits(p.GetValue())
	}
	// the same instance after arbitrary edits, or a fresh instance
	for _, p := range reg.All() {
		move(t, p)
	}
	var got []byte
	var after map[uint32]float64
	m.SetCustomLoadFunc(func(r io.Reader) error {
		after = map[uint32]float64{}
		for _, p := range reg.All() {
			after[p.ID] = p.GetValue()
		}
		b, err := io.ReadAll(r)
		got = append([]byte{}, b...)
		return err
	})
	if err := m.Load(reader(t, buf.Bytes())); err != nil {
		t.Fatalf("Load of a saved state failed: %v", err)
	}
	for _, p := range reg.All() {
		if g := math.Float64bits(p.GetValue()); g != want[p.ID] {
			t.Fatalf("parameter %d: saved %v, restored %v", p.ID, math.Float64frombits(want[p.ID]), p.GetValue())
		}
	}
	if hasCustom {
		if got == nil || !bytes.Equal(got, custom) {
			t.Fatalf("custom payload: saved %x, restored %x", custom, got)
		}
		for id, v := range after {
			if math.Float64bits(v) != want[id] {
				t.Fatalf("custom load ran before parameter %d was restored (%v)", id, v)
			}
		}
	} else if got != nil {
		t.Fatalf("custom load called with %x although nothing custom was saved", got)
	}
	// saving the restored state gives the same bytes
	var again bytes.Buffer
	if err := m.Save(&again); err != nil || !bytes.Equal(again.Bytes(), buf.Bytes()) {
		t.Fatalf("save after load differs: %x then %x (err %v)", buf.Bytes(), again.Bytes(), err)
	}
	t.Nontrivial(moved)
}

func versions(t *T) {
	all := genIDs(t, "ids")
	if len(all) == 0 {
		all = []uint32{3}
	}
	oldReg, newReg := param.NewRegistry(), param.NewRegistry()
	var newIDs []uint32
	inOld := map[uint32]bool{}
	for _, id := range all {
		k := t.Int(0, 3, "side")
		if k != 1 {
			p := genParam(t, id)
			_ = oldReg.Add(p)
			move(t, p)
			inOld[id] = true
		}
		if k != 2 {
			newIDs = append(newIDs, id)
		}
	}
	for _, id := range rapid.Permutation(newIDs).Draw(t.T, "order") {
		p := genParam(t, id)
		move(t, p)
		_ = newReg.Add(p)
	}
	mOld, mNew := state.NewManager(oldReg), state.NewManager(newReg)
	withSave, withLoad := t.Bool("saveCustom"), t.Bool("loadCustom")
	pay := []byte("payload")
	if withSave {
		mOld.SetCustomSaveFunc(customSave(pay, 1))
	}
	var got []byte
	if withLoad {
		mNew.SetCustomLoadFunc(func(r io.Reader) (err error) { got, err = io.ReadAll(r); return })
	}
	var buf bytes.Buffer
	if err := mOld.Save(&buf); err != nil {
		t.Fatalf("Save: %v", err)
	}
	before := map[uint32]float64{}
	for _, p := range newReg.All() {
		before[p.ID] = p.GetValue()
	}
	if err := mNew.Load(reader(t, buf.Bytes())); err != nil {
		t.Fatalf("state of another version of the plugin does not load: %v", err)
	}
	shared, fresh := 0, 0
	for _, p := range newReg.All() {
		if inOld[p.ID] {
			shared++
			if w := oldReg.Get(p.ID).GetValue(); p.GetValue() != w {
				t.Fatalf("parameter %d: saved %v, restored %v", p.ID, w, p.GetValue())
			}
		} else {
			fresh++
			if p.GetValue() != before[p.ID] {
				t.Fatalf("parameter %d is not in the saved state but changed from %v to %v", p.ID, before[p.ID], p.GetValue())
			}
		}
	}
	if withSave && withLoad && !bytes.Equal(got, pay) {
		t.Fatalf("custom payload: saved %q, restored %q", pay, got)
	}
	t.Desc("shared=%d new=%d dropped=%d custom=%v/%v %v", shared, fresh, int(oldReg.Count())-shared, withSave, withLoad, all)
	t.Nontrivial(shared > 0 && (fresh > 0 || int(oldReg.Count()) > shared))
}

func encode(version uint32, ids []uint32, vals []float64, custom []byte) []byte {
	b := []byte("VST3GO")
	b = binary.LittleEndian.AppendUint32(b, version)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(ids)))
	for i, id := range ids {
		b = binary.LittleEndian.AppendUint32(b, id)
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(vals[i]))
	}
	if custom == nil {
		return binary.LittleEndian.AppendUint32(b, 0)
	}
	return append(binary.LittleEndian.AppendUint32(b, 1), custom...)
}

func format(t *T) {
	ids := genIDs(t, "ids")
	reg := param.NewRegistry()
	vals := make([]float64, len(ids))
	for i, id := range ids {
		p := genParam(t, id)
		_ = reg.Add(p)
		move(t, p)
		vals[i] = p.GetValue()
	}
	var custom []byte
	m := state.NewManager(reg)
	if t.Bool("custom") {
		custom = append([]byte{}, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t.T, "payload")...)
		m.SetCustomSaveFunc(customSave(custom, 1))
	}
	var buf bytes.Buffer
	if err := m.Save(&buf); err != nil {
		t.Fatalf("Save: %v", err)
	}
	want := encode(1, ids, vals, custom)
	if !bytes.Equal(buf.Bytes(), want) {
		t.Fatalf("saved bytes %x, the established format gives %x", buf.Bytes(), want)
	}
	// a session written earlier, with its entries in another order
	perm := rapid.Permutation(ids).Draw(t.T, "order")
	old := make([]float64, len(perm))
	for i := range perm {
		old[i] = t.U(0, 1, "old")
	}
	var got []byte
	m.SetCustomLoadFunc(func(r io.Reader) (err error) { got, err = io.ReadAll(r); return })
	if err := m.Load(reader(t, encode(uint32(t.Int(0, 1, "version")), perm, old, custom))); err != nil {
		t.Fatalf("a session in the established format does not load: %v", err)
	}
	for i, id := range perm {
		if g := reg.Get(id).GetValue(); g != old[i] {
			t.Fatalf("parameter %d: stream says %v, restored %v", id, old[i], g)
		}
	}
	if custom != nil && !bytes.Equal(got, custom) {
		t.Fatalf("custom payload %x, restored %x", custom, got)
	}
	t.Desc("ids=%v vals=%v custom=%d", perm, old, len(custom))
	t.Nontrivial(len(ids) >= 2)
}

func history(t *T) {
	reg := param.NewRegistry()
	n := t.Size(1, 8, 300, "params")
	for i := 0; i < n; i++ {
		_ = reg.Add(genParam(t, uint32(i*7)))
	}
	m := state.NewManager(reg)
	var blob []byte // the plugin's own data
	m.SetCustomSaveFunc(func(w io.Writer) error { _, err := w.Write(blob); return err })
	m.SetCustomLoadFunc(func(r io.Reader) (err error) { blob, err = io.ReadAll(r); return })
	type snap struct {
		bytes []byte
		vals  []float64
		blob  []byte
	}
	var snaps []snap
	take := func() []float64 {
		v := make([]float64, n)
		for i, p := range reg.All() {
			v[i] = p.GetValue()
		}
		return v
	}
	t.Repeat(map[string]func(*rapid.T){
		"set":  func(*rapid.T) { move(t, reg.GetByIndex(int32(t.Int(0, n-1, "i")))); t.Desc("m") },
		"blob": func(*rapid.T) { blob = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t.T, "blob"); t.Desc("b%x", blob) },
		"save": func(*rapid.T) {
			var b bytes.Buffer
			if err := m.Save(&b); err != nil {
				t.Fatalf("Save: %v", err)
			}
			snaps = append(snaps, snap{b.Bytes(), take(), Clone(blob)})
			t.Desc("s")
		},
		"load": func(*rapid.T) {
			if len(snaps) == 0 {
				t.Skip("nothing saved")
			}
			k := t.Int(0, len(snaps)-1, "snap")
			s := snaps[k]
			if err := m.Load(reader(t, s.bytes)); err != nil {
				t.Fatalf("Load: %v", err)
			}
			for i, v := range take() {
				if v != s.vals[i] {
					t.Fatalf("save #%d: parameter #%d was %v, restored %v", k, i, s.vals[i], v)
				}
			}
			if !bytes.Equal(blob, s.blob) {
				t.Fatalf("save #%d: payload %x, restored %x", k, s.blob, blob)
			}
			t.Desc("l%d", k)
			t.Nontrivial(k < len(snaps)-1)
		},
	})
}

type hookWriter struct {
	b  bytes.Buffer
	n  int
	fn func(n int)
}

func (h *hookWriter) Write(p []byte) (int, error) {
	h.fn(h.n)
	h.n++
	return h.b.Write(p)
}

func midsave(t *T) {
	reg := param.NewRegistry()
	n := t.Size(1, 8, 300, "params")
	had := map[uint32]map[float64]bool{}
	note := func(p *param.Parameter) {
		if had[p.ID] == nil {
			had[p.ID] = map[float64]bool{}
		}
		had[p.ID][p.GetValue()] = true
	}
	for i := 0; i < n; i++ {
		p := genParam(t, uint32(i))
		_ = reg.Add(p)
		note(p)
	}
	m := state.NewManager(reg)
	var custom []byte
	if t.Bool("custom") {
		custom = []byte("tail")
		m.SetCustomSaveFunc(customSave(custom, 1))
	}
	at := map[int]int{}
	for i := t.Int(1, 3, "actions"); i > 0; i-- {
		at[t.Int(0, 2*n+3, "at")] = t.Int(0, 1, "what")
	}
	fired := false
	next := uint32(1000)
	w := &hookWriter{fn: func(k int) {
		what, ok := at[k]
		if !ok {
			return
		}
		fired = true
		t.Desc("@%d:%d", k, what)
		if what == 0 {
			p := reg.GetByIndex(int32(k % n))
			p.SetValue(t.U(0, 1, "v"))
			note(p)
		} else {
			p := param.New(next, "late").Build()
			next++
			_ = reg.Add(p)
			note(p)
		}
	}}
	if err := m.Save(w); err != nil {
		t.Fatalf("Save: %v", err)
	}
	for i := 0; i < n; i++ { // each of those there from the start must be restored
		p := reg.Get(uint32(i))
		v := t.U(0, 1, "other")
		for had[p.ID][v] {
			v = v/2 + 0.01
		}
		p.SetValue(v)
	}
	m2 := state.NewManager(reg)
	got := []byte(nil)
	m2.SetCustomLoadFunc(func(r io.Reader) (err error) { got, err = io.ReadAll(r); return })
	if err := m2.Load(bytes.NewReader(w.b.Bytes())); err != nil {
		t.Fatalf("the state saved while parameters changed does not load: %v", err)
	}
	if custom != nil && !bytes.Equal(got, custom) {
		t.Fatalf("custom payload %q came back as %q", custom, got)
	}
	for _, p := range reg.All() {
		if !had[p.ID][p.GetValue()] { // (those registered on the way keep their only value)
			t.Fatalf("parameter %d restored to %v, a value it never had", p.ID, p.GetValue())
		}
	}
	t.Desc(" n=%d", n)
	t.Nontrivial(fired)
}
