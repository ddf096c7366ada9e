package c05

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"

	"xtverif/gen"
	"xtverif/hx"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

// refused checks that Send transmits nothing and reports one of the wanted faults.
func refused(t fataler, x *xtorm.XPipe, want []*gen.Fault, others []error) {
	r := &gen.Recorder{R: []netx.Response{nil}}
	rr, err := x.Send(context.Background(), r)
	if len(r.Units) != 0 {
		t.Fatalf("a unit that failed (%v) was sent: %d bytes", want, len(r.Units[0]))
	}
	if err == nil {
		t.Fatalf("a unit that failed (%v) gave no error", want)
	}
	if len(rr) != 0 {
		t.Fatalf("a unit that failed (%v) gave responses %v", want, rr)
	}
	ok := false
	wanted := map[error]bool{}
	for _, f := range want {
		ok = ok || f.Cause == nil || errors.Is(err, f.Cause)
		wanted[f.Cause] = true
	}
	for _, o := range others {
		if !wanted[o] && errors.Is(err, o) {
			t.Fatalf("first failure was %v, but %v is reported", want, err)
		}
	}
	if ok {
		return
	}
	t.Fatalf("first failure was %v (%v), but %v is reported", want, want[0].Cause, err)
}

func accepted(t fataler, x *xtorm.XPipe, ops []*gen.Op) []byte {
	r := &gen.Recorder{}
	if _, err := x.Send(context.Background(), r); err != nil {
		t.Fatalf("a correct unit was refused: %v", err)
	}
	if len(r.Units) == 0 && len(gen.Expected(ops)) == 0 {
		return nil
	}
	if len(r.Units) != 1 {
		t.Fatalf("%d sends", len(r.Units))
	}
	if err := gen.MatchUnit(gen.Expected(ops), r.Units[0]); err != nil {
		t.Fatalf("%v", err)
	}
	return r.Units[0]
}

func flatten(ops []*gen.Op, r []*gen.Op) []*gen.Op {
	for _, o := range ops {
		r = append(r, o)
		r = flatten(o.Body, r)
	}
	return r
}

// causes lists the errors of all faults of ops.
func causes(ops []*gen.Op) []error {
	var r []error
	add := func(f *gen.Fault) {
		if f != nil && f.Cause != nil {
			r = append(r, f.Cause)
		}
	}
	for _, o := range flatten(ops, nil) {
		if o.Criteria != nil {
			add(o.Criteria.Bad)
		}
		for _, a := range o.Args {
			add(a.Bad)
		}
		for _, row := range o.Rows {
			for _, e := range row {
				add(e.Bad)
			}
		}
		for _, s := range o.Sets {
			add(s.V.Bad)
		}
		if o.CallbackErr != nil {
			r = append(r, o.CallbackErr)
		}
	}
	return r
}

func TestFaults(t *testing.T) {
	hx.Check(t, 5000, 100000, "random programs of up to 10 operations nested up to 3 deep with 1 to 3 faults injected (unsupported or failing value, bare or buried in expressions; failing criteria; wrong row length; unknown isolation level; callback error), with further calls, Sends and a Reset; non-trivial: the first fault is followed by further operations or is inside a block", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		x := xtorm.New(g.Int(0, 600, "cap"))
		desc := ""
		rounds := g.Int(1, 2, "rounds")
		for round := 0; round < rounds; round++ {
			p := g.Program(gen.Opts{MaxOps: 10, MaxDepth: 3, ExprDepth: 1})
			all := flatten(p.Ops, nil)
			if len(all) == 0 {
				op := &gen.Op{Kind: gen.KStmt}
				p.Ops, all = []*gen.Op{op}, []*gen.Op{op}
			}
			if g.Chance(20, "clean first") {
				// A good unit first, extended by one that fails.
				q := g.Program(gen.Opts{MaxOps: 3, MaxDepth: 1, ExprDepth: 1})
				q.Run(&x.Builder, q.Ops)
				accepted(t, x, q.Ops)
				c.Class("extends a sent unit")
			}
			for n := g.Int(1, 3, "faults"); n > 0; n-- {
				what := g.Inject(all[g.Pick(len(all), "where")], "inj")
				if what != "" {
					c.Class(what)
				}
			}
			want := gen.FirstFaults(p.Ops)
			if want == nil {
				// Only Prepare or Deallocate were picked.
				op := &gen.Op{Kind: gen.KStmt}
				g.Inject(op, "inj")
				p.Ops = append(p.Ops, op)
				want = gen.FirstFaults(p.Ops)
			}
			p.Run(&x.Builder, p.Ops)
			others := causes(p.Ops)
			refused(t, x, want, others)
			more := 0
			for n := g.Int(0, 3, "more"); n > 0; n-- {
				left := 2
				op := g.Op(p, gen.Opts{MaxDepth: 2, ExprDepth: 1}, 0, &left, "more")
				if g.Chance(40, "more bad") {
					g.Inject(op, "more")
					others = append(others, causes([]*gen.Op{op})...)
				}
				p.RunOp(&x.Builder, op)
				more++
			}
			if more > 0 || g.Chance(20, "again") {
				refused(t, x, want, others)
				c.Class("used after the failure")
			}
			desc += fmt.Sprintf("%s -> %v; ", gen.Ops(p.Ops), want)
			if len(p.Ops) > 1 || p.Depth > 1 || more > 0 {
				c.NonTrivial(desc)
			}
			c.ClassIf(p.Depth > 1, "nested")
			x.Reset()
			if g.Chance(60, "clean after") {
				q := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 2, ExprDepth: 1})
				q.Run(&x.Builder, q.Ops)
				a := accepted(t, x, q.Ops)
				ordered := true
				for _, o := range flatten(q.Ops, nil) {
					if o.Kind == gen.KUpdate && len(o.Sets) > 1 {
						ordered = false
					}
				}
				if ordered {
					y := xtorm.New(0)
					q.ResetIDs()
					q.Run(&y.Builder, q.Ops)
					b := accepted(t, y, q.Ops)
					if i := gen.Diff(a, b); i >= 0 {
						t.Fatalf("a builder Reset after a failure differs from a new one at byte %d of %d", i, len(b))
					}
				}
				x.Reset()
				c.Class("reused after Reset")
			}
		}
		c.Sample(func() string { return desc })
	})
}

type crash struct{ n int }

// A block whose callback panics, the program recovering outside of it.
func TestPanics(t *testing.T) {
	hx.Check(t, 2500, 40000, "random programs with a panic in the callback of a transaction or expectation block (at its end, or in a handle's or a block's callback within), from which the program recovers outside of that block, at the top or in an enclosing callback, and goes on; then further calls, Sends and Reset; nothing may be sent until a Reset has succeeded; non-trivial: recovered in an enclosing callback, or followed by further operations", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		x := xtorm.New(g.Int(0, 600, "cap"))
		p := g.Program(gen.Opts{MaxOps: 6, MaxDepth: 2, ExprDepth: 1})
		cut := len(p.Ops) - g.Int(0, min(3, len(p.Ops)), "body")
		body := append([]*gen.Op{}, p.Ops[cut:]...)
		p.Ops = p.Ops[:cut]
		boom := func() { panic(crash{1}) }
		block := &gen.Op{Kind: []int{gen.KTx, gen.KExpect}[g.Pick(2, "block")], Iso: xtorm.IsolationLevel(g.Int(0, 5, "iso")), Body: body}
		switch k := g.Pick(5, "panics"); k {
		case 0, 1:
			block.AfterCall = func(*xtorm.Builder) { boom() }
			c.Class("at the end of the callback")
		case 2:
			block.Body = append(block.Body, &gen.Op{Kind: gen.KInsertF, Name: "t", Columns: []string{"a"}, Rows: [][]gen.Ex{{{V: int64(1)}}}, InRows: func(*xtorm.Insert) { boom() }})
			c.Class("in InsertF")
		case 3:
			block.Body = append(block.Body, &gen.Op{Kind: gen.KUpdateF, Name: "t", Sets: []gen.SetEx{{Column: "a", V: gen.Ex{V: int64(1)}}}, InSets: func(*xtorm.Update) { boom() }})
			c.Class("in UpdateF")
		default:
			block.Body = append(block.Body, &gen.Op{Kind: []int{gen.KTx, gen.KExpect}[g.Pick(2, "inner")], AfterCall: func(*xtorm.Builder) { boom() }})
			c.Class("in a block within")
		}
		recovered := 0
		rec := func(v interface{}) {
			if _, ok := v.(crash); ok {
				recovered++
			}
		}
		// Further calls of the enclosing callback panic, as the builder is taken to be in use.
		then := func(l []*gen.Op) {
			for _, o := range l {
				o.Recover = func(interface{}) {}
			}
		}
		desc := ""
		if last := len(block.Body) - 1; block.AfterCall == nil && g.Pick(2, "right there") == 0 {
			block.Body[last].Recover = rec
			after := g.Program(gen.Opts{MaxOps: 2, MaxDepth: 0, ExprDepth: 0}).Ops
			then(after)
			block.Body = append(block.Body, after...)
			p.Ops = append(p.Ops, block)
			desc = "right there"
			c.Class("recovered right outside of the handle's callback, or the inner block's")
		} else if depth := g.Int(0, 2, "enclosing"); depth == 0 {
			block.Recover = rec
			p.Ops = append(p.Ops, block)
			desc = "top"
		} else {
			at := g.Int(0, depth, "recovers")
			desc = fmt.Sprintf("%d blocks around, recovered %d out", depth, at)
			op := block
			for i := 0; ; i++ {
				if i == at {
					op.Recover = rec
				}
				if i == depth {
					break
				}
				after := g.Program(gen.Opts{MaxOps: 2, MaxDepth: 0, ExprDepth: 0}).Ops
				then(after)
				op = &gen.Op{Kind: []int{gen.KTx, gen.KExpect}[g.Pick(2, "around")], Body: append([]*gen.Op{op}, after...)}
			}
			p.Ops = append(p.Ops, op)
			c.ClassIf(at < depth, "recovered in a callback")
		}
		p.Run(&x.Builder, p.Ops)
		if recovered != 1 {
			t.Fatalf("the panic of the callback did not reach the program (%s)", desc)
		}
		silent := func(when string) {
			r := &gen.Recorder{R: []netx.Response{nil}}
			err := error(nil)
			func() {
				defer func() {
					if recover() != nil {
						err = errors.New("panic")
					}
				}()
				_, err = x.Send(context.Background(), r)
			}()
			if len(r.Units) != 0 {
				t.Fatalf("%s (%s): a unit with a block whose callback panicked was sent: %d bytes", when, desc, len(r.Units[0]))
			}
			if err == nil {
				t.Fatalf("%s (%s): a unit with a block whose callback panicked gave no error", when, desc)
			}
		}
		silent("at once")
		more := 0
		for n := g.Int(0, 3, "more"); n > 0; n-- {
			left := 2
			op := g.Op(p, gen.Opts{MaxDepth: 1, ExprDepth: 1}, 0, &left, "more")
			op.Recover = func(interface{}) {}
			p.RunOp(&x.Builder, op)
			more++
		}
		silent("later")
		if desc != "top" || more > 0 {
			c.NonTrivial(desc + gen.Ops(p.Ops))
		}
		c.Sample(func() string { return desc + ": " + gen.Ops(p.Ops) })
		reset := func() (ok bool) {
			defer func() { ok = recover() == nil }()
			x.Reset()
			return
		}
		if reset() {
			c.Class("reused after Reset")
			q := g.Program(gen.Opts{MaxOps: 4, MaxDepth: 1, ExprDepth: 1})
			q.Run(&x.Builder, q.Ops)
			accepted(t, x, q.Ops)
		}
	})
}

// Every kind of fault in every kind of operation at every depth of nesting, alone and
// followed by a good operation.
func TestEveryFault(t *testing.T) {
	hx.Rule(t, "every (operation, fault site, faulty value, burial 0..7, surrounding block 0..6, followed or not) combination, and two callbacks failing in turn; exhaustive over these; non-trivial: all")
	bad := func(k, bury int) gen.Ex {
		e := gen.BadExpr(k, 1000+k)
		if bury > 0 {
			e = gen.Wrap(e, bury-1)
		}
		return e
	}
	one := gen.Ex{V: int64(1)}
	var sites []func() *gen.Op
	var names []string
	add := func(name string, f func() *gen.Op) { sites, names = append(sites, f), append(names, name) }
	for k := 0; k < gen.NBadArgs; k++ {
		for _, kind := range []int{gen.KStmt, gen.KExecute} {
			for pos := 0; pos < 3; pos++ {
				add(fmt.Sprintf("arg %d of kind %d variant %d", pos, kind, k), func() *gen.Op {
					op := &gen.Op{Kind: kind, Name: "s", ID: 1, Args: []gen.Val{{V: 1}, {V: "x"}, {V: nil}}}
					op.Args[pos] = gen.BadArg(k, 1000+k)
					return op
				})
			}
		}
	}
	for k := 0; k < gen.NBadExprs; k++ {
		for bury := 0; bury <= 7; bury++ {
			for _, kind := range []int{gen.KInsert, gen.KInsertF, gen.KInsertRow} {
				for pos := 0; pos < 4; pos++ {
					if kind == gen.KInsertRow && pos >= 2 {
						continue
					}
					add(fmt.Sprintf("row value %d of kind %d variant %d/%d", pos, kind, k, bury), func() *gen.Op {
						rows := [][]gen.Ex{{one, one}, {one, one}}
						if kind == gen.KInsertRow {
							rows = rows[:1]
						}
						rows[pos/2][pos%2] = bad(k, bury)
						return &gen.Op{Kind: kind, Name: "t", Columns: []string{"a", "b"}, Rows: rows}
					})
				}
			}
			for _, kind := range []int{gen.KUpdate, gen.KUpdateF} {
				for pos := 0; pos < 2; pos++ {
					add(fmt.Sprintf("assignment %d of kind %d variant %d/%d", pos, kind, k, bury), func() *gen.Op {
						sets := []gen.SetEx{{Column: "a", V: one}, {Column: "b", V: one}}
						sets[pos].V = bad(k, bury)
						return &gen.Op{Kind: kind, Name: "t", Sets: sets}
					})
				}
			}
			if bury == 0 && (k < gen.NBadArgs || k == gen.NBadArgs+3) {
				continue // not usable as criteria
			}
			for _, kind := range []int{gen.KUpdate, gen.KUpdateF, gen.KDelete} {
				add(fmt.Sprintf("criteria of kind %d variant %d/%d", kind, k, bury), func() *gen.Op {
					e := bad(k, bury)
					op := &gen.Op{Kind: kind, Name: "t", Criteria: &e}
					if kind != gen.KDelete {
						op.Sets = []gen.SetEx{{Column: "a", V: one}}
					}
					return op
				})
			}
		}
	}
	for n := 0; n < 5; n++ {
		if n != 2 {
			for pos := 0; pos < 3; pos++ {
				add(fmt.Sprintf("row %d of %d values for 2 columns", pos, n), func() *gen.Op {
					rows := [][]gen.Ex{{one, one}, {one, one}, {one, one}}
					rows[pos] = make([]gen.Ex, n)
					for i := range rows[pos] {
						rows[pos][i] = one
					}
					return &gen.Op{Kind: gen.KInsert, Name: "t", Columns: []string{"a", "b"}, Rows: rows}
				})
			}
		}
	}
	for _, iso := range []xtorm.IsolationLevel{6, 7, 100, 1 << 16, ^xtorm.IsolationLevel(0)} {
		add(fmt.Sprint("isolation ", iso), func() *gen.Op { return &gen.Op{Kind: gen.KTx, Iso: iso} })
	}
	for _, kind := range []int{gen.KTx, gen.KExpect, gen.KInsertF, gen.KUpdateF} {
		for content := 0; content < 2; content++ {
			add(fmt.Sprintf("callback of kind %d, content %d", kind, content), func() *gen.Op {
				op := &gen.Op{Kind: kind, CallbackErr: gen.Causes[(kind+content)%len(gen.Causes)]}
				if content == 1 {
					switch kind {
					case gen.KInsertF:
						op.Columns, op.Rows = []string{"a"}, [][]gen.Ex{{one}}
					case gen.KUpdateF:
						op.Sets = []gen.SetEx{{Column: "a", V: one}}
					default:
						op.Body = []*gen.Op{{Kind: gen.KStmt, Name: "body"}}
					}
				}
				return op
			})
			// The callback fails with an error of its own after the handle already failed.
			add(fmt.Sprintf("callback of kind %d, fails after content %d", kind, content), func() *gen.Op {
				op := &gen.Op{Kind: kind, CallbackErr: gen.Causes[(kind+content)%len(gen.Causes)]}
				e := bad(gen.NBadArgs+1, content)
				switch kind {
				case gen.KInsertF:
					op.Columns, op.Rows = []string{"a"}, [][]gen.Ex{{e}, {one}}
				case gen.KUpdateF:
					op.Sets = []gen.SetEx{{Column: "a", V: e}, {Column: "b", V: one}}
				default:
					op.Body = []*gen.Op{{Kind: gen.KInsertRow, Columns: []string{"a"}, Rows: [][]gen.Ex{{e}}}}
				}
				return op
			})
		}
	}
	for i, site := range sites {
		for around := 0; around < 7; around++ {
			for after := 0; after < 2; after++ {
				if !hx.Thorough() && (i+around*2+after)%3 != 0 && i > 200 {
					continue
				}
				hx.Each(t, func(c *hx.Case) {
					op := site()
					ops := []*gen.Op{op}
					good := &gen.Op{Kind: gen.KStmt, Name: "good"}
					if after == 1 {
						ops = []*gen.Op{good, op, good}
					}
					other := &gen.TestError{N: 777}
					switch around {
					case 1, 2:
						b := &gen.Op{Kind: gen.KTx, Body: ops}
						if around == 2 {
							b.CallbackErr = other
						}
						ops = []*gen.Op{b}
					case 3, 4:
						b := &gen.Op{Kind: gen.KExpect, Body: ops}
						if around == 4 {
							b.CallbackErr = other
						}
						ops = []*gen.Op{b}
					case 5:
						ops = []*gen.Op{{Kind: gen.KExpect, Body: []*gen.Op{{Kind: gen.KTx, Iso: 3, Body: ops}, good}}}
					case 6:
						ops = []*gen.Op{{Kind: gen.KTx, Body: []*gen.Op{good, {Kind: gen.KExpect, Body: ops, CallbackErr: other}}}}
					}
					p := &gen.Prog{Ops: ops}
					x := xtorm.New(i % 200)
					p.Run(&x.Builder, ops)
					want := gen.FirstFaults(ops)
					refused(t, x, want, causes(ops))
					x.StmtExecute("more", struct{}{})
					x.Delete("t", nil)
					refused(t, x, want, causes(ops))
					x.Reset()
					x.StmtExecute("good")
					accepted(t, x, []*gen.Op{good})
					c.NonTrivial(fmt.Sprint(names[i], around, after))
					c.Sample(func() string { return fmt.Sprintf("%s, block %d, followed %d", names[i], around, after) })
				})
			}
		}
	}
	if hx.Thorough() {
		hx.Exhaustive(t)
	}
}
