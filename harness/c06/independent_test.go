package c06

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"

	"xtverif/gen"
	"xtverif/hx"
)

// hooks sets f to run inside every callback of ops.
func hooks(ops []*gen.Op, f func()) {
	for _, o := range ops {
		o.AfterCall = func(*xtorm.Builder) { f() }
		o.InRows = func(*xtorm.Insert) { f() }
		o.InSets = func(*xtorm.Update) { f() }
		hooks(o.Body, f)
	}
}

// Two builders used in turn, one of them inside the callbacks of the other.
func TestIndependent(t *testing.T) {
	hx.Check(t, 2500, 40000, "two random programs on two builders, operations of the second made between and inside (in the callbacks of) those of the first, with expressions used by both; each unit must be what it is alone; non-trivial: both have operations", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		o := gen.Opts{MaxOps: 6, MaxDepth: 2, ExprDepth: 1}
		p, q := g.Program(o), g.Program(o)
		for i := g.Int(0, 2, "shared"); i > 0; i-- {
			e := g.Expr(2, nil, "e")
			op := &gen.Op{Kind: gen.KDelete, Name: "shared", Criteria: &e}
			p.Ops, q.Ops = append(p.Ops, op), append([]*gen.Op{op}, q.Ops...)
		}
		single(p.Ops)
		single(q.Ops)
		alone := func(p *gen.Prog) []byte {
			p.ResetIDs()
			x := xtorm.New(0)
			p.Run(&x.Builder, p.Ops)
			return unit(t, x)
		}
		wantP, wantQ := alone(p), alone(q)
		p.ResetIDs()
		q.ResetIDs()
		x, y := xtorm.New(g.Int(0, 300, "cap")), xtorm.New(g.Int(0, 300, "cap"))
		left, inside := q.Ops, 0
		step := func() {
			if len(left) > 0 && g.Chance(50, "step") {
				op := left[0]
				left = left[1:]
				q.RunOp(&y.Builder, op)
				inside++
			}
		}
		hooks(p.Ops, step)
		for _, op := range p.Ops {
			p.RunOp(&x.Builder, op)
			step()
		}
		hooks(p.Ops, func() {})
		for _, op := range left {
			q.RunOp(&y.Builder, op)
		}
		if i := gen.Diff(unit(t, x), wantP); i >= 0 {
			t.Fatalf("a unit built while another one was differs at byte %d", i)
		}
		if i := gen.Diff(unit(t, y), wantQ); i >= 0 {
			t.Fatalf("a unit built within another one differs at byte %d", i)
		}
		if p.Count > 0 && q.Count > 0 {
			key := gen.Ops(p.Ops) + " | " + gen.Ops(q.Ops)
			c.NonTrivial(key)
			c.ClassIf(inside > 0, "interleaved")
			c.Sample(func() string { return key })
		}
	})
}

// Builders used by goroutines at the same time, under the race detector.
func TestConcurrent(t *testing.T) {
	hx.Check(t, 500, 8000, "2 to 6 goroutines, each encoding a random program of its own 6 times with a builder of its own, all with expressions they share, under the race detector; each unit must be what it is alone; non-trivial: 2 or more programs with operations", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		n := g.Int(2, 6, "goroutines")
		var shared []*gen.Op
		for i := g.Int(0, 3, "shared"); i > 0; i-- {
			e := g.Expr(2, nil, "e")
			shared = append(shared, &gen.Op{Kind: gen.KDelete, Name: "shared", Criteria: &e})
		}
		progs, want := make([]*gen.Prog, n), make([][]byte, n)
		busy, key := 0, ""
		for i := range progs {
			p := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 2, ExprDepth: 1})
			p.Ops = append(p.Ops, shared...)
			single(p.Ops)
			x := xtorm.New(0)
			p.Run(&x.Builder, p.Ops)
			progs[i], want[i] = p, unit(t, x)
			if p.Count > 0 {
				busy++
				key += gen.Ops(p.Ops) + " | "
			}
		}
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := xtorm.New(i * 40)
				for rep := 0; rep < 6; rep++ {
					progs[i].ResetIDs()
					progs[i].Run(&x.Builder, progs[i].Ops)
					r := &gen.Recorder{}
					_, err := x.Send(context.Background(), r)
					var got []byte
					if len(r.Units) > 0 {
						got = r.Units[0]
					}
					if j := gen.Diff(got, want[i]); err != nil || j >= 0 {
						errs[i] = fmt.Errorf("error %v, differs at byte %d of %d", err, j, len(want[i]))
						return
					}
					x.Reset()
				}
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("goroutine %d of %d, using a builder of its own: %v", i, n, err)
			}
		}
		if busy >= 2 {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}
