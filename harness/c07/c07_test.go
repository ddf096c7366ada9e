package c07

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"

	"xtverif/gen"
	"xtverif/hx"
)

// handle is a builder, insert or update that may be misused.
type handle struct {
	b    *xtorm.Builder
	x    *xtorm.XPipe // b is the root's
	i    *xtorm.Insert
	u    *xtorm.Update
	name string
}

type runner struct {
	t     *rapid.T
	g     *gen.G
	c     *hx.Case
	p     *gen.Prog
	live  []handle // enclosing the running callback
	stale []handle
	left  int // misuses that may still be made
	log   string
	n     int
}

func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// use makes a drawn call on h.
func (r *runner) use(h handle) (what string, f func()) {
	g := r.g
	switch {
	case h.i != nil:
		return "Row", func() {
			if g.Pick(3, "bad") == 2 {
				h.i.RowV(struct{}{})
			} else {
				h.i.Row([]interface{}{"misused", int64(g.Int(0, 1000, "v"))})
			}
		}
	case h.u != nil:
		return "Set", func() {
			if g.Pick(3, "bad") == 2 {
				h.u.Set("misused", struct{}{})
			} else {
				h.u.Set("misused", int64(g.Int(0, 1000, "v")))
			}
		}
	}
	hi := gen.NKinds - 1
	if h.x != nil {
		hi += 2
	}
	kind := g.Int(0, hi, "misuse.kind")
	switch {
	case kind == gen.NKinds:
		return "Send", func() {
			rec := &gen.Recorder{}
			defer func() {
				if len(rec.Units) > 0 {
					r.t.Fatalf("Send of an enclosing builder called the sender")
				}
			}()
			h.x.Send(context.Background(), rec)
		}
	case kind == gen.NKinds+1:
		return "Reset", func() { h.x.Reset() }
	}
	left := 1
	q := &gen.Prog{}
	op := g.OpOf(kind, q, gen.Opts{MaxDepth: 1, ExprDepth: 1}, 0, &left, "misuse")
	if g.Chance(15, "misuse.bad") {
		g.Inject(op, "misuse.inj")
	}
	return op.String(), func() { q.RunOp(h.b, op) }
}

// point is a place where handles may be misused.
func (r *runner) point(where string) {
	for r.left > 0 && r.g.Chance(35, "misuse") {
		r.left--
		if len(r.live) > 0 && (len(r.stale) == 0 || r.g.Pick(2, "which") == 0) {
			h := r.live[r.g.Pick(len(r.live), "handle")]
			what, f := r.use(h)
			if panics(f) == nil {
				r.t.Fatalf("%s: %s on %s, which encloses the running callback, did not panic", where, what, h.name)
			}
			r.c.Class("enclosing handle used in " + where)
			r.log += fmt.Sprintf("[%s: enclosing %s.%s]", where, h.name, what)
			r.n++
		} else if len(r.stale) > 0 {
			h := r.stale[r.g.Pick(len(r.stale), "handle")]
			what, f := r.use(h)
			panics(f)
			r.c.Class("finished " + h.name + " used in " + where)
			r.log += fmt.Sprintf("[%s: finished %s.%s]", where, h.name, what)
			r.n++
		}
	}
}

func (r *runner) run(h handle, ops []*gen.Op, where string) {
	r.point(where)
	for _, o := range ops {
		r.op(h, o)
		r.point(where)
	}
}

func (r *runner) op(h handle, o *gen.Op) {
	b := h.b
	inside := func(child handle, f func()) {
		r.live = append(r.live, h)
		f()
		r.live = r.live[:len(r.live)-1]
		r.stale = append(r.stale, child)
	}
	switch o.Kind {
	case gen.KTx:
		b.Tx(o.Iso, func(c *xtorm.Builder) error {
			child := handle{b: c, name: "Tx builder"}
			inside(child, func() { r.run(child, o.Body, "Tx") })
			return o.CallbackErr
		})
	case gen.KExpect:
		b.ExpectFailOnError(o.Ctx, func(c *xtorm.Builder) error {
			child := handle{b: c, name: "Expect builder"}
			inside(child, func() { r.run(child, o.Body, "Expect") })
			return o.CallbackErr
		})
	case gen.KInsertF:
		b.InsertF(o.Name, o.Columns, func(i *xtorm.Insert) error {
			inside(handle{i: i, name: "Insert"}, func() {
				r.point("InsertF")
				for _, row := range o.Rows {
					i.Row(gen.Values(row))
					r.point("InsertF")
				}
			})
			return o.CallbackErr
		})
	case gen.KUpdateF:
		b.UpdateF(o.Name, crit(o), func(u *xtorm.Update) error {
			inside(handle{u: u, name: "Update"}, func() {
				r.point("UpdateF")
				for _, s := range o.Sets {
					u.Set(s.Column, s.V.V)
					r.point("UpdateF")
				}
			})
			return o.CallbackErr
		})
	default:
		r.p.RunOp(b, o)
	}
}

func crit(o *gen.Op) func([]byte, uint8) ([]byte, error) {
	if o.Criteria == nil {
		return nil
	}
	return o.Criteria.Fn()
}

func blocks(ops []*gen.Op) []*gen.Op {
	var r []*gen.Op
	for _, o := range ops {
		if o.Kind == gen.KTx || o.Kind == gen.KExpect || o.Kind == gen.KInsertF || o.Kind == gen.KUpdateF {
			r = append(append(r, o), blocks(o.Body)...)
		}
	}
	return r
}

func TestMisuse(t *testing.T) {
	hx.Check(t, 8000, 150000, "random programs (1 to 3 units on one builder) with up to 8 uses of enclosing and of finished handles at random points, by every operation, Send and Reset; the unit must be that of the program without them; non-trivial: at least one misuse", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		x := xtorm.New(g.Int(0, 4000, "cap"))
		root := handle{b: &x.Builder, x: x, name: "root"}
		r := &runner{t: t, g: g, c: c, left: 8}
		for u := g.Int(1, 3, "units"); u > 0; u-- {
			r.p = g.Program(gen.Opts{MaxOps: 8, MaxDepth: 3, ExprDepth: 1})
			if r.p.Depth < 2 {
				left := 2
				r.p.Ops = append(r.p.Ops, g.OpOf([]int{gen.KTx, gen.KExpect, gen.KInsertF, gen.KUpdateF}[g.Pick(4, "block")], r.p, gen.Opts{MaxDepth: 2}, 0, &left, "b"))
			}
			if l := blocks(r.p.Ops); len(l) > 0 && g.Chance(25, "fail") {
				// A unit that fails in one of its callbacks: its handles are just as dead.
				cause := errors.New("the callback fails")
				o := l[g.Pick(len(l), "which")]
				o.CallbackErr = cause
				r.run(root, r.p.Ops, "top level of a failing unit")
				rec := &gen.Recorder{}
				if _, err := x.Send(context.Background(), rec); !errors.Is(err, cause) || len(rec.Units) != 0 {
					t.Fatalf("a failed unit: Send returned %v and sent %d units (%s)", err, len(rec.Units), r.log)
				}
				r.point("after failed Send")
				x.Reset()
				r.point("after Reset")
				r.log += " failed | "
				c.Class("failed unit")
				if r.p = g.Program(gen.Opts{MaxOps: 4, MaxDepth: 2}); len(r.p.Ops) == 0 {
					continue
				}
			}
			r.run(root, r.p.Ops, "top level")
			want := gen.Expected(r.p.Ops)
			send := func(when string) {
				rec := &gen.Recorder{}
				if _, err := x.Send(context.Background(), rec); err != nil {
					t.Fatalf("%s: a correct unit is refused: %v (%s)", when, err, r.log)
				}
				if len(rec.Units) != 1 {
					t.Fatalf("%s: %d sends", when, len(rec.Units))
				}
				if err := gen.MatchUnit(want, rec.Units[0]); err != nil {
					t.Fatalf("%s: misuse altered the unit: %v (%s)", when, err, r.log)
				}
			}
			send("Send")
			n := r.n
			r.point("after Send")
			if r.n > n {
				send("second Send")
			}
			x.Reset()
			r.point("after Reset")
			r.log += " | "
		}
		if r.n > 0 {
			c.NonTrivial(r.log)
			c.Sample(func() string { return r.log })
		}
	})
}

// Every operation of every enclosing builder in every kind of callback, and every finished
// handle at every later moment.
func TestEveryPair(t *testing.T) {
	hx.Rule(t, "every (callback kind, nesting, operation on each enclosing builder) and every (finished handle kind, operation, moment of use, spare capacity) combination; exhaustive; non-trivial: all")
	type call struct {
		name string
		f    func(b *xtorm.Builder)
	}
	nop := func(*xtorm.Builder) error { return nil }
	calls := []call{
		{"StmtExecute", func(b *xtorm.Builder) { b.StmtExecute("misused", 1) }},
		{"Prepare", func(b *xtorm.Builder) { b.Prepare(1, "misused") }},
		{"Execute", func(b *xtorm.Builder) { b.Execute(1, 2) }},
		{"Deallocate", func(b *xtorm.Builder) { b.Deallocate(1) }},
		{"Insert", func(b *xtorm.Builder) { b.Insert("misused", []string{"a"}, [][]interface{}{{1}}) }},
		{"InsertF", func(b *xtorm.Builder) {
			b.InsertF("misused", nil, func(i *xtorm.Insert) error { i.RowV(1); return nil })
		}},
		{"InsertRow", func(b *xtorm.Builder) { b.InsertRow("misused", []string{"a"}, []interface{}{1}) }},
		{"Update", func(b *xtorm.Builder) { b.Update("misused", nil, map[string]interface{}{"a": 1}) }},
		{"UpdateF", func(b *xtorm.Builder) {
			b.UpdateF("misused", nil, func(u *xtorm.Update) error { u.Set("a", 1); return nil })
		}},
		{"Delete", func(b *xtorm.Builder) { b.Delete("misused", nil) }},
		{"Tx", func(b *xtorm.Builder) { b.Tx(0, nop) }},
		{"TxIso", func(b *xtorm.Builder) { b.Tx(3, nop) }},
		{"TxBad", func(b *xtorm.Builder) { b.Tx(99, nop) }},
		{"Expect", func(b *xtorm.Builder) { b.ExpectFailOnError(0, nop) }},
		{"bad statement", func(b *xtorm.Builder) { b.StmtExecute("misused", struct{}{}) }},
	}
	// enter runs body inside a callback of the given kind of b.
	enter := func(kind int, b *xtorm.Builder, body func(h handle)) *gen.Op {
		switch kind {
		case 0:
			b.Tx(0, func(c *xtorm.Builder) error { body(handle{b: c}); return nil })
			return &gen.Op{Kind: gen.KTx}
		case 1:
			b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(c *xtorm.Builder) error { body(handle{b: c}); return nil })
			return &gen.Op{Kind: gen.KExpect, Ctx: xtorm.OpenExpectCtxEmpty}
		case 2:
			b.InsertF("t", []string{"a"}, func(i *xtorm.Insert) error { body(handle{i: i}); return nil })
			return &gen.Op{Kind: gen.KInsertF, Name: "t", Columns: []string{"a"}}
		}
		b.UpdateF("t", nil, func(u *xtorm.Update) error { body(handle{u: u}); return nil })
		return &gen.Op{Kind: gen.KUpdateF, Name: "t"}
	}
	kinds := []string{"Tx", "Expect", "InsertF", "UpdateF"}
	check := func(x *xtorm.XPipe, ops []*gen.Op, key string) {
		rec := &gen.Recorder{}
		if _, err := x.Send(context.Background(), rec); err != nil || len(rec.Units) != 1 {
			t.Fatalf("%s: %d sends, %v", key, len(rec.Units), err)
		}
		if err := gen.MatchUnit(gen.Expected(ops), rec.Units[0]); err != nil {
			t.Fatalf("%s: misuse altered the unit: %v", key, err)
		}
	}
	for _, cp := range []int{0, 64, 4096} {
		for inner := 0; inner < 4; inner++ {
			for outer := -1; outer < 2; outer++ {
				for target := 0; target < 2; target++ {
					if outer < 0 && target == 1 {
						continue
					}
					for ci := 0; ci < len(calls)+2; ci++ {
						hx.Each(t, func(c *hx.Case) {
							x := xtorm.New(cp)
							name := ""
							mis := func(b *xtorm.Builder) func() {
								switch {
								case ci < len(calls):
									name = calls[ci].name
									return func() { calls[ci].f(b) }
								case ci == len(calls):
									name = "Send"
									return func() { x.Send(context.Background(), &gen.Recorder{}) }
								}
								name = "Reset"
								return func() { x.Reset() }
							}
							var ops []*gen.Op
							x.StmtExecute("first")
							first := &gen.Op{Kind: gen.KStmt, Name: "first"}
							try := func(b *xtorm.Builder) {
								f := mis(b)
								if panics(f) == nil {
									t.Fatalf("capacity %d, %s in %s (outer %d): %s on enclosing builder %d did not panic", cp, name, kinds[inner], outer, name, target)
								}
							}
							if outer < 0 {
								ops = []*gen.Op{enter(inner, &x.Builder, func(handle) { try(&x.Builder) })}
							} else {
								var in *gen.Op
								out := enter(outer, &x.Builder, func(h handle) {
									in = enter(inner, h.b, func(handle) {
										b := &x.Builder
										if target == 1 {
											b = h.b
										}
										try(b)
									})
								})
								out.Body = []*gen.Op{in}
								ops = []*gen.Op{out}
							}
							key := fmt.Sprintf("%s in %s in %d on %d, capacity %d", name, kinds[inner], outer, target, cp)
							check(x, append([]*gen.Op{first}, ops...), key)
							c.NonTrivial(key)
							c.Sample(func() string { return key })
						})
					}
				}
			}
		}
		// Finished handles.
		for kind := 0; kind < 4; kind++ {
			for moment := 0; moment < 5; moment++ {
				for ci := 0; ci < len(calls); ci++ {
					hx.Each(t, func(c *hx.Case) {
						x := xtorm.New(cp)
						var h handle
						op := enter(kind, &x.Builder, func(hh handle) { h = hh })
						use := func() {
							panics(func() {
								switch {
								case h.i != nil:
									h.i.RowV("misused", ci)
								case h.u != nil:
									h.u.Set("misused", ci)
								default:
									calls[ci].f(h.b)
								}
							})
						}
						key := fmt.Sprintf("finished %s, %s, moment %d, capacity %d", kinds[kind], calls[ci].name, moment, cp)
						after := &gen.Op{Kind: gen.KStmt, Name: "after", Args: nil}
						ops := []*gen.Op{op}
						switch moment {
						case 0: // at once, then go on
							use()
							x.StmtExecute("after")
							ops = append(ops, after)
						case 1: // after another operation
							x.StmtExecute("after")
							use()
							ops = append(ops, after)
						case 2: // inside another callback
							in := &gen.Op{Kind: gen.KTx, Body: []*gen.Op{after}}
							x.Tx(0, func(b *xtorm.Builder) error {
								use()
								b.StmtExecute("after")
								use()
								return nil
							})
							ops = append(ops, in)
						case 3: // after Reset, in the next unit
							x.Reset()
							x.StmtExecute("after")
							use()
							ops = []*gen.Op{after}
						case 4: // inside a later InsertF
							x.InsertF("u", []string{"b"}, func(i *xtorm.Insert) error {
								use()
								i.RowV(nil)
								use()
								return nil
							})
							ops = append(ops, &gen.Op{Kind: gen.KInsertF, Name: "u", Columns: []string{"b"}, Rows: [][]gen.Ex{{gen.NullEx()}}})
						}
						check(x, ops, key)
						c.NonTrivial(key)
						c.Sample(func() string { return key })
					})
				}
			}
		}
	}
	hx.Exhaustive(t)
}
