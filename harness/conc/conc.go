// Package conc holds what several checks try with threads.
package conc

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	. "vst3verif/vk"
)

// Together runs the functions on goroutines and returns the first complaint.
func Together(fns ...func() string) (msg string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan struct{})
	for _, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := ""
			if p := Catch(func() { <-start; m = fn() }); p != "" {
				m = "panic: " + p
			}
			if m != "" {
				mu.Lock()
				if msg == "" {
					msg = m
				}
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	return
}

func Pause(every, i int) {
	if every > 0 && i%every == 0 {
		runtime.Gosched()
	}
}

// Values has threads write and read parameters.
func Values(t *T) {
	np := t.Int(1, 3, "params")
	nw := t.Int(1, 3, "writers")
	nr := t.Int(1, 3, "readers")
	n := t.Int(20, 200, "writes")
	every := t.Int(0, 7, "yield")
	t.Desc("%d params %d writers %d readers %d writes", np, nw, nr, n)
	reg := param.NewRegistry()
	ps := make([]*param.Parameter, np)
	for i := range ps {
		// a range of 0 to 1 and one of powers of two, so that plain values are exact
		lo, hi := 0.0, 1.0
		if i == 1 {
			lo, hi = -1024, 1024
		}
		ps[i] = param.New(uint32(i), fmt.Sprint("p", i)).Range(lo, hi).Default(lo).Build()
		_ = reg.Add(ps[i])
	}
	// writer w writes (k*nw+w+1)/65536 for rising k: the value names writer and position
	value := func(w, k int) float64 { return float64(k*nw+w+1) / 65536 }
	plain := t.Bool("plain")
	how := t.Int(0, 3, "read how")
	ok := func(v float64) (w, k int, good bool) {
		x := v * 65536
		if x == 0 {
			return 0, -1, true
		}
		if x != math.Trunc(x) || x < 1 || x > float64(n*nw) {
			return 0, 0, false
		}
		i := int(x) - 1
		return i % nw, i / nw, true
	}
	var done atomic.Int32
	var mid atomic.Bool
	var fns []func() string
	for w := 0; w < nw; w++ {
		fns = append(fns, func() string {
			defer done.Add(1)
			for k := 0; k < n; k++ {
				for i, p := range ps {
					if plain && i%2 == 1 {
						p.SetPlainValue(p.Denormalize(value(w, k)))
					} else {
						p.SetValue(value(w, k))
					}
				}
				Pause(every, k)
			}
			return ""
		})
	}
	ctx := process.NewContext(16, reg)
	man := state.NewManager(reg)
	for r := 0; r < nr; r++ {
		fns = append(fns, func() string {
			last := make([][3]int, np)
			for i := range last {
				last[i] = [3]int{-1, -1, -1}
			}
			for it := 0; ; it++ {
				end := done.Load() == int32(nw)
				for i, p := range ps {
					var v float64
					switch (how + it + r) % 4 {
					case 0:
						v = p.GetValue()
					case 1:
						v = ctx.Param(uint32(i))
					case 2:
						v = p.Normalize(ctx.ParamPlain(uint32(i)))
					case 3:
						// a state saved meanwhile restores to values that were written
						var b bytes.Buffer
						if err := man.Save(&b); err != nil {
							return err.Error()
						}
						r2 := param.NewRegistry()
						for j, q := range ps {
							_ = r2.Add(param.New(uint32(j), "x").Range(q.Min, q.Max).Build())
						}
						if err := state.NewManager(r2).Load(&b); err != nil {
							return err.Error()
						}
						v = r2.Get(uint32(i)).GetValue()
						_ = p.FormatValue(p.GetValue())
					}
					w, k, good := ok(v)
					if !good {
						return fmt.Sprintf("parameter %d reads %v, which nobody wrote", i, v)
					}
					if nw == 1 && k < last[i][w] {
						return fmt.Sprintf("parameter %d goes back from write %d to write %d", i, last[i][w], k)
					}
					last[i][w] = k
					if k >= 0 && k < n-1 {
						mid.Store(true)
					}
				}
				if end {
					return ""
				}
				Pause(1, it)
			}
		})
	}
	if m := Together(fns...); m != "" {
		t.Fatalf("%s", m)
	}
	for i, p := range ps {
		if _, k, good := ok(p.GetValue()); !good || k != n-1 {
			t.Fatalf("parameter %d ends at %v, which is nobody's last value", i, p.GetValue())
		}
	}
	t.Nontrivial(mid.Load())
}

// Registration has threads register parameters while others list and save them.
func Registration(t *T) {
	nt := t.Int(2, 4, "threads")
	r := param.NewAutoRegistry()
	type reserved struct{ lo, n uint32 }
	type result struct {
		p    *param.Parameter
		id   uint32
		kind int
		err  error
	}
	type op struct{ kind, id, n int }
	wanted := r.Reserve(6) // ids asked for by several threads
	every := t.Int(0, 5, "yield")
	ops := make([][]op, nt)
	for i := range ops {
		for k := t.Int(1, 25, "ops"); k > 0; k-- {
			o := op{kind: t.Int(0, 7, "kind"), id: t.Int(0, 5, "id"), n: t.Int(1, 4, "count")}
			ops[i] = append(ops[i], o)
			t.Desc(" %d", o.kind)
		}
	}
	var done atomic.Int32
	var part atomic.Bool
	got := make([][]result, nt)
	plain := param.NewRegistry() // batches with ids asked for by several threads
	firsts := make([]map[uint32]*param.Parameter, nt)
	for i := range firsts {
		firsts[i] = map[uint32]*param.Parameter{}
	}
	ranges := make([][]reserved, nt)
	var fns []func() string
	for w := range ops {
		fns = append(fns, func() string {
			defer done.Add(1)
			var mine []reserved
			for k, o := range ops[w] {
				name := fmt.Sprintf("t%d-%d", w, k)
				p := param.New(0, name).Build()
				switch o.kind {
				case 0, 1:
					err := r.Register(p)
					got[w] = append(got[w], result{p, p.ID, 0, err})
				case 2: // contested, and above what is given out automatically
					id := wanted + uint32(o.id)
					err := r.RegisterWithID(id, p)
					got[w] = append(got[w], result{p, id, 2, err})
				case 7: // above all that was given out, which moves the automatic ids
					id := uint32(1000 * (w*25 + k + 1))
					err := r.RegisterWithID(id, p)
					got[w] = append(got[w], result{p, id, 7, err})
				case 3:
					n := uint32(o.n)
					lo := r.Reserve(n)
					ranges[w] = append(ranges[w], reserved{lo, n})
					for j := uint32(0); j < n; j++ {
						mine = append(mine, reserved{lo + j, 1})
					}
				case 5:
					var batch []*param.Parameter
					for j := 0; j < o.n; j++ {
						q := param.New(uint32((o.id*3+j)%8), name).Build()
						batch = append(batch, q)
						if firsts[w][q.ID] == nil {
							firsts[w][q.ID] = q
						}
					}
					if err := plain.Add(batch...); err != nil {
						return err.Error()
					}
					for _, q := range batch {
						if plain.Get(q.ID) == nil {
							return fmt.Sprintf("id %d is not found just after it was added", q.ID)
						}
					}
					continue
				case 6: // changes nothing
					r.EnableAutoID(true)
					if _, ok := r.GetID("nobody"); ok {
						return "an unknown name has an id"
					}
					if id, ok := r.GetID(fmt.Sprintf("t%d-0", (w+1)%nt)); ok {
						if q := r.Get(id); q == nil || q.Name != fmt.Sprintf("t%d-0", (w+1)%nt) {
							return fmt.Sprintf("the id %d of another thread's name leads elsewhere", id)
						}
					}
					continue
				case 4:
					if len(mine) == 0 {
						continue
					}
					id := mine[0].lo
					mine = mine[1:]
					err := r.RegisterWithID(id, p)
					got[w] = append(got[w], result{p, id, 4, err})
				}
				if g := got[w]; len(g) > 0 {
					if x := g[len(g)-1]; x.err == nil && (r.Get(x.id) != x.p || r.GetByName(x.p.Name) != x.p) {
						return fmt.Sprintf("parameter %q is not found just after its registration as %d", x.p.Name, x.id)
					}
				}
				Pause(every, k)
			}
			return ""
		})
	}
	var lists [2][][]*param.Parameter
	for l := range lists {
		fns = append(fns, func() string {
			for it := 0; ; it++ {
				end := done.Load() == int32(nt)
				pc := plain.Count()
				pa := plain.All()
				if int(pc) > len(pa) {
					return fmt.Sprintf("a listing of %d after a count of %d", len(pa), pc)
				}
				for i, p := range pa {
					if p == nil || plain.GetByIndex(int32(i)) != p || plain.Get(p.ID) != p {
						return fmt.Sprintf("entry %d of a listing is not what is at that index", i)
					}
				}
				c := r.Count()
				a := r.All()
				if int(c) > len(a) {
					return fmt.Sprintf("a listing of %d after a count of %d", len(a), c)
				}
				for i, p := range a {
					if p == nil || r.GetByIndex(int32(i)) != p {
						return fmt.Sprintf("entry %d of a listing is not what is at that index", i)
					}
				}
				if len(lists[l]) < 50 {
					lists[l] = append(lists[l], a)
				}
				if l == 1 && it%4 == 0 {
					// a state saved meanwhile holds at least what was registered before
					var b bytes.Buffer
					if err := state.NewManager(r.Registry).Save(&b); err != nil {
						return err.Error()
					}
					r2 := param.NewRegistry()
					for _, p := range a {
						q := param.New(p.ID, p.Name).Build()
						q.SetValue(0.75)
						_ = r2.Add(q)
					}
					if err := state.NewManager(r2).Load(&b); err != nil {
						return "a state saved during registrations does not load: " + err.Error()
					}
					for _, p := range a {
						if v := r2.Get(p.ID).GetValue(); v != p.GetValue() {
							return fmt.Sprintf("parameter %d was registered before a save and is restored to %v, it has %v", p.ID, v, p.GetValue())
						}
					}
				}
				if end {
					return ""
				}
				runtime.Gosched()
			}
		})
	}
	if m := Together(fns...); m != "" {
		t.Fatalf("%s", m)
	}
	all := map[uint32]bool{}
	for _, m := range firsts {
		for id := range m {
			all[id] = true
		}
	}
	for id := range all {
		found := false
		for _, m := range firsts {
			found = found || m[id] != nil && m[id] == plain.Get(id)
		}
		if !found {
			t.Fatalf("id %d of batches added together is nobody's first one", id)
		}
	}
	if int(plain.Count()) != len(all) || len(plain.All()) != len(all) {
		t.Fatalf("%d ids were added in batches, %d counted, %d listed", len(all), plain.Count(), len(plain.All()))
	}
	final := r.All()
	for _, ls := range lists {
		for _, a := range ls {
			for i := range a {
				if i >= len(final) || final[i] != a[i] {
					t.Fatalf("a listing is no beginning of the final one")
				}
			}
			if len(a) > 0 && len(a) < len(final) {
				part.Store(true)
			}
		}
	}
	owner := map[uint32]string{}
	count := 0
	held := map[uint32]bool{}
	for _, rs := range ranges {
		for _, x := range rs {
			for j := uint32(0); j < x.n; j++ {
				if held[x.lo+j] {
					t.Fatalf("id %d was reserved twice", x.lo+j)
				}
				held[x.lo+j] = true
			}
		}
	}
	claims, wins := map[uint32]int{}, map[uint32]int{}
	for _, g := range got {
		for _, x := range g {
			claims[x.id]++
			if x.err != nil {
				if x.kind != 2 {
					t.Fatalf("a registration nobody else could conflict with fails: %v", x.err)
				}
				continue
			}
			wins[x.id]++
			count++
			if o, ok := owner[x.id]; ok {
				t.Fatalf("id %d belongs to %s and %s", x.id, o, x.p.Name)
			}
			owner[x.id] = x.p.Name
			if x.p.ID != x.id || r.Get(x.id) != x.p || r.GetByName(x.p.Name) != x.p {
				t.Fatalf("parameter %s is not found under its id %d", x.p.Name, x.id)
			}
			if held[x.id] && x.kind == 0 {
				t.Fatalf("automatic id %d was reserved", x.id)
			}
		}
	}
	for id, n := range claims {
		if wins[id] != 1 {
			t.Fatalf("of %d claims to id %d, %d succeeded", n, id, wins[id])
		}
	}
	if int(r.Count()) != count || len(final) != count {
		t.Fatalf("%d parameters listed, %d counted, %d registered", len(final), r.Count(), count)
	}
	// cleared while others look: all or nothing
	if m := Together(func() string { r.Clear(); return "" }, func() string {
		for i := 0; i < 3; i++ {
			if a := r.All(); len(a) != 0 && len(a) != count {
				return fmt.Sprintf("a listing of %d of %d parameters during a clear", len(a), count)
			}
			_, _ = r.GetID("t0-0")
			_ = r.GetByName("t0-0")
			_ = r.GetByIndex(0)
			_ = r.Count()
		}
		return ""
	}); m != "" {
		t.Fatalf("%s", m)
	}
	if r.Count() != 0 || r.Reserve(1) != 0 {
		t.Fatalf("a cleared registry is not empty")
	}
	t.Nontrivial(part.Load())
}
