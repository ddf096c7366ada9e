package c04

import (
	"context"
	"fmt"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

// check uses e as criteria, row value, assignment and operand, n times each.
func check(t fataler, e gen.Ex, places int, reps int) {
	p := &gen.Prog{}
	for i := 0; i < reps; i++ {
		ec := e
		if places&1 != 0 {
			p.Ops = append(p.Ops, &gen.Op{Kind: gen.KDelete, Name: "t", Criteria: &ec})
		}
		if places&2 != 0 {
			p.Ops = append(p.Ops, &gen.Op{Kind: gen.KInsertF, Name: "t", Columns: []string{"a", "b"}, Rows: [][]gen.Ex{{e, e}}})
		}
		if places&4 != 0 {
			p.Ops = append(p.Ops, &gen.Op{Kind: gen.KUpdateF, Name: "t", Criteria: &ec, Sets: []gen.SetEx{{Column: "a", V: e}}})
		}
		if places&8 != 0 {
			both := gen.Ex{V: xtorm.And(e.V, e.V), W: &gen.EWant{Kind: wire.Operator, Name: "&&", Params: []*gen.EWant{e.W, e.W}}}
			p.Ops = append(p.Ops, &gen.Op{Kind: gen.KUpdate, Name: "t", Criteria: &both, Sets: []gen.SetEx{{Column: "a", V: both}}})
		}
	}
	x := xtorm.New(0)
	p.Run(&x.Builder, p.Ops)
	r := &gen.Recorder{}
	if _, err := x.Send(context.Background(), r); err != nil {
		t.Fatalf("expression was refused: %v", err)
	}
	if len(r.Units) != 1 {
		t.Fatalf("%d sends", len(r.Units))
	}
	if err := gen.MatchUnit(gen.Expected(p.Ops), r.Units[0]); err != nil {
		t.Fatalf("%v", err)
	}
}

func TestTrees(t *testing.T) {
	hx.Check(t, 8000, 160000, "random expression trees of depth up to 6 (chains up to 300), used as criteria, row value, assignment and operand, up to three times; non-trivial: depth 2 or more", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		e := g.Expr(g.Int(1, 6, "depth"), nil, "e")
		chain := 0
		if g.Chance(10, "chain") {
			chain = g.Int(1, 300, "links")
			e = g.Chain(e, chain, "chain")
		}
		if chain*e.Nodes > 20000 {
			return
		}
		places := g.Int(1, 15, "places")
		reps := g.Int(1, 3, "reps")
		if chain > 20 {
			places, reps = places&7|1, 1
		}
		check(t, e, places, reps)
		for k := range g.Seen {
			c.Class(k)
		}
		c.ClassIf(e.Nodes > 20, "20+ nodes")
		c.ClassIf(reps > 1, "encoded repeatedly")
		if e.Depth >= 2 {
			c.NonTrivial(fmt.Sprint(places, reps, e.W.String()))
			c.Sample(func() string { return e.W.String() })
		}
	})
}

// Every constructor on operands of distinguishable value, in every place.
func TestConstructors(t *testing.T) {
	hx.Rule(t, "every exported constructor (and every date unit) applied to distinct operands, as criteria, row value, assignment and operand; exhaustive over constructors")
	lit := func(i int64) gen.Ex {
		return gen.Ex{V: i, W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Sint, Int: i}}}}
	}
	a, b, d := lit(1), gen.Column("b"), lit(3)
	mk := func(kind int, name string, v interface{}, ps ...gen.Ex) gen.Ex {
		w := &gen.EWant{Kind: kind, Name: name}
		for _, p := range ps {
			w.Params = append(w.Params, p.W)
		}
		return gen.Ex{V: v, W: w}
	}
	run := func(name string, e gen.Ex) {
		for places := 1; places < 16; places++ {
			hx.Each(t, func(c *hx.Case) {
				check(t, e, places, 2)
				c.NonTrivial(fmt.Sprint(name, places))
				c.Sample(func() string { return name + " = " + e.W.String() })
			})
		}
	}
	for _, u := range gen.Unaries {
		run(u.Name, mk(wire.Operator, u.Op, u.F(b.V), b))
	}
	for _, o := range gen.Binaries {
		run(o.Name, mk(wire.Operator, o.Op, o.F(a.V, b.V), a, b))
		run(o.Name+"'", mk(wire.Operator, o.Op, o.F(b.V, a.V), b, a))
	}
	run("Between", mk(wire.Operator, "between", xtorm.Between(a.V, b.V, d.V), a, b, d))
	run("NotBetween", mk(wire.Operator, "not_between", xtorm.NotBetween(a.V, b.V, d.V), a, b, d))
	for n := 0; n <= 40; n++ {
		l := []gen.Ex{b}
		for i := 0; i < n; i++ {
			l = append(l, lit(int64(i)))
		}
		vals := gen.Values(l[1:])
		run(fmt.Sprint("In", n), mk(wire.Operator, "in", xtorm.In(b.V, vals), l...))
		run(fmt.Sprint("InV", n), mk(wire.Operator, "in", xtorm.InV(b.V, vals...), l...))
		run(fmt.Sprint("NotIn", n), mk(wire.Operator, "not_in", xtorm.NotIn(b.V, vals), l...))
		run(fmt.Sprint("NotInV", n), mk(wire.Operator, "not_in", xtorm.NotInV(b.V, vals...), l...))
		run(fmt.Sprint("Concat", n), mk(wire.FuncCall, "CONCAT", xtorm.Concat(vals...), l[1:]...))
	}
	for i, u := range gen.Units {
		w := gen.Ex{W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Octets, Data: gen.UnitNames[i]}}}}
		run("DateAdd "+gen.UnitNames[i], mk(wire.Operator, "date_add", xtorm.DateAdd(b.V, d.V, u), b, d, w))
		run("DateSub "+gen.UnitNames[i], mk(wire.Operator, "date_sub", xtorm.DateSub(b.V, d.V, u), b, d, w))
	}
	run("Default", mk(wire.Operator, "default", xtorm.Default()))
	run("RowCount", mk(wire.FuncCall, "ROW_COUNT", xtorm.RowCount()))
	run("LastInsertID", mk(wire.FuncCall, "LAST_INSERT_ID", xtorm.LastInsertID()))
	hx.Exhaustive(t)
}

// Operand and column sizes around every boundary of the nested prefixes, one and two levels deep.
func TestSizes(t *testing.T) {
	hx.Rule(t, "a binary operator, a function and IN over a string or column of every length 0..300 and around 2^14 and 2^21, bare and nested, with header sizes shifted by a second operand; non-trivial: all")
	var l []int
	add := func(a, b, step int) {
		for i := a; i <= b; i += step {
			l = append(l, i)
		}
	}
	add(0, 300, 1)
	add(16384-90, 16384+4, 1)
	add(2097152-60, 2097152+2, hx.N(5, 1))
	if hx.Thorough() {
		add(300, 16384-90, 13)
	}
	text := string(gen.Pattern(2097152+64, 'a', 0))
	for _, n := range l {
		s := text[:n]
		lit := gen.Ex{V: s, W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.String, Data: s}}}}
		col := gen.Column(s)
		op := func(kind int, name string, v interface{}, ps ...gen.Ex) gen.Ex {
			w := &gen.EWant{Kind: kind, Name: name}
			for _, p := range ps {
				w.Params = append(w.Params, p.W)
			}
			return gen.Ex{V: v, W: w}
		}
		eq := op(wire.Operator, "==", xtorm.Eq(col.V, lit.V), col, lit)
		if n > 1<<20 {
			short := gen.Column("x")
			eq = op(wire.Operator, "==", xtorm.Eq(short.V, lit.V), short, lit)
		}
		cat := op(wire.FuncCall, "CONCAT", xtorm.Concat(lit.V), lit)
		not := op(wire.Operator, "!", xtorm.Not(cat.V), cat)
		in := op(wire.Operator, "in", xtorm.InV(lit.V), lit)
		neg := op(wire.Operator, "sign_minus", xtorm.Minus(col.V), col)
		for i, e := range []gen.Ex{col, eq, cat, not, in, neg} {
			if n > 1<<20 && i%2 == 1 {
				continue
			}
			hx.Each(t, func(c *hx.Case) {
				check(t, e, 1<<uint((n+i)%3), 1)
				key := fmt.Sprintf("size %d, form %d", n, i)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
		}
	}
}

// Wide lists and deep trees.
func TestCounts(t *testing.T) {
	hx.Rule(t, "IN, NOT IN and CONCAT over n operands, n = 0..300 and around powers of two and ten up to 65537, each telling its position; trees of depth n leaning left or right, n up to 1025 (thorough: 4097); AND and OR chains as written for n conditions; non-trivial: n > 1")
	mk := func(kind int, name string, v interface{}, ps ...gen.Ex) gen.Ex {
		w := &gen.EWant{Kind: kind, Name: name}
		for _, p := range ps {
			w.Params = append(w.Params, p.W)
		}
		return gen.Ex{V: v, W: w}
	}
	run := func(n int, key string, e gen.Ex) {
		hx.Each(t, func(c *hx.Case) {
			check(t, e, 1<<uint(n%3), 1)
			if n > 1 {
				c.NonTrivial(key)
			}
			c.Sample(func() string { return key })
		})
	}
	a := gen.Column("a")
	for _, n := range gen.Counts(300, 65537) {
		l := []gen.Ex{a}
		for i := 0; i < n; i++ {
			l = append(l, gen.Numbered(i))
		}
		vals := gen.Values(l[1:])
		run(n, fmt.Sprint("In ", n), mk(wire.Operator, "in", xtorm.In(a.V, vals), l...))
		run(n, fmt.Sprint("NotIn ", n), mk(wire.Operator, "not_in", xtorm.NotIn(a.V, vals), l...))
		run(n, fmt.Sprint("InV ", n), mk(wire.Operator, "in", xtorm.InV(a.V, vals...), l...))
		run(n, fmt.Sprint("NotInV ", n), mk(wire.Operator, "not_in", xtorm.NotInV(a.V, vals...), l...))
		run(n, fmt.Sprint("Concat ", n), mk(wire.FuncCall, "CONCAT", xtorm.Concat(vals...), l[1:]...))
	}
	for _, n := range gen.Counts(60, hx.N(1025, 4097)) {
		left, right := a, a
		for i := 0; i < n; i++ {
			x := gen.Numbered(i)
			b := gen.Binaries[(i+n)%len(gen.Binaries)]
			left = mk(wire.Operator, b.Op, b.F(left.V, x.V), left, x)
			right = mk(wire.Operator, b.Op, b.F(x.V, right.V), x, right)
		}
		if n == 0 {
			continue
		}
		run(n, fmt.Sprint("left ", n), left)
		run(n, fmt.Sprint("right ", n), right)
	}
}

// Operands of 16 and 256 MiB.
func TestHuge(t *testing.T) {
	hx.Rule(t, "an operator or function over an operand around 2^24 and 2^28 bytes; non-trivial: all")
	for _, n := range gen.Huge(40) {
		s := gen.HugeString(n)
		one := gen.Numbered(2)
		lit := &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.String, Data: s}}}
		for i, e := range []gen.Ex{
			{V: xtorm.Eq(one.V, s), W: &gen.EWant{Kind: wire.Operator, Name: "==", Params: []*gen.EWant{one.W, lit}}},
			{V: xtorm.Not(xtorm.Concat(s)), W: &gen.EWant{Kind: wire.Operator, Name: "!", Params: []*gen.EWant{{Kind: wire.FuncCall, Name: "CONCAT", Params: []*gen.EWant{lit}}}}},
		} {
			hx.Each(t, func(c *hx.Case) {
				check(t, e, 1, 1)
				key := fmt.Sprintf("form %d, %d bytes", i, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
			runtime.GC()
		}
	}
}
