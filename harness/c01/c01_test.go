package c01

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

var caps = []int{0, 1, 4, 5, 17, 64, 300, 1024, 1 << 16}

func send(t *rapid.T, x *xtorm.XPipe, want []gen.WMsg) []byte {
	sentinel := []netx.Response{nil, "x"}
	sendErr := errors.New("sender's error")
	r := &gen.Recorder{R: sentinel, Err: sendErr}
	rr, err := x.Send(context.Background(), r)
	if len(want) == 0 && len(r.Units) == 0 {
		return nil // nothing to send
	}
	if len(r.Units) != 1 {
		t.Fatalf("Send called the sender %d times (err %v)", len(r.Units), err)
	}
	if !errors.Is(err, sendErr) || len(rr) != 2 || rr[1] != "x" {
		t.Fatalf("Send returned %v, %v: not the sender's result", rr, err)
	}
	if err := gen.MatchUnit(want, r.Units[0]); err != nil {
		t.Fatalf("%v", err)
	}
	return r.Units[0]
}

// Random programs, sent one or more times, extended after a Send, and reused after Reset.
func TestProgram(t *testing.T) {
	hx.Check(t, 4000, 60000, "random builder programs of up to 14 operations, blocks nested up to 4 deep, 1 to 3 units per builder; non-trivial: 3 or more operations, at least one of them inside a block", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		x := xtorm.New(caps[g.Pick(len(caps), "cap")])
		var desc string
		units := g.Int(1, 3, "units")
		for u := 0; u < units; u++ {
			if u > 0 {
				x.Reset()
				c.Class("reset and reused")
			}
			p := g.Program(gen.Opts{MaxOps: 14, MaxDepth: 4, ExprDepth: 2})
			if g.Chance(30, "reuse") {
				p.Hand = &gen.Hand{Reuse: true}
			}
			p.Run(&x.Builder, p.Ops)
			want := gen.Expected(p.Ops)
			a := send(t, x, want)
			if g.Chance(20, "again") {
				b := send(t, x, want)
				if string(a) != string(b) {
					t.Fatalf("second Send of the same unit differs")
				}
				c.Class("sent twice")
			}
			if g.Chance(20, "extend") {
				left := 0
				op := g.Op(p, gen.Opts{MaxDepth: 1, ExprDepth: 1}, 0, &left, "ext")
				p.Ops = append(p.Ops, op)
				p.RunOp(&x.Builder, op)
				send(t, x, gen.Expected(p.Ops))
				c.Class("extended after Send")
			}
			if p.Count >= 3 && p.Depth >= 2 {
				desc += gen.Ops(p.Ops) + " | "
			}
			c.ClassIf(p.Depth >= 3, "nested 2+ deep")
			c.ClassIf(p.NRows >= 2, "2+ InsertRow")
		}
		for k := range g.Seen {
			c.Class(k)
		}
		if desc != "" {
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		}
	})
}

// Blocks: every isolation level and context, in every combination of nesting.
func TestBlocks(t *testing.T) {
	hx.Rule(t, "every pair (outer block, inner block) over 6 isolation levels and 2 contexts, with an operation before, between and after; exhaustive")
	mk := func(k int) *gen.Op {
		if k < 6 {
			return &gen.Op{Kind: gen.KTx, Iso: xtorm.IsolationLevel(k)}
		}
		return &gen.Op{Kind: gen.KExpect, Ctx: []xtorm.OpenContext{xtorm.OpenExpectCtxCopyPrev, xtorm.OpenExpectCtxEmpty}[k-6]}
	}
	s := func(n string) *gen.Op { return &gen.Op{Kind: gen.KStmt, Name: n} }
	for shape := 0; shape < 16; shape++ {
		for a := 0; a < 8; a++ {
			for b := 0; b < 8; b++ {
				hx.Each(t, func(c *hx.Case) {
					out, in := mk(a), mk(b)
					opt := func(l []*gen.Op, bit int, n string) []*gen.Op {
						if shape>>uint(bit)&1 == 1 {
							l = append(l, s(n))
						}
						return l
					}
					var ops []*gen.Op
					in.Body = opt(nil, 0, "inner")
					out.Body = opt(nil, 1, "before")
					out.Body = append(out.Body, in)
					out.Body = opt(out.Body, 2, "after")
					ops = append(ops, out)
					ops = opt(ops, 3, "last")
					p := &gen.Prog{Ops: ops}
					x := xtorm.New(0)
					p.Run(&x.Builder, ops)
					r := &gen.Recorder{}
					x.Send(context.Background(), r)
					if len(r.Units) != 1 {
						t.Fatalf("%s: %d sends", gen.Ops(ops), len(r.Units))
					}
					if err := gen.MatchUnit(gen.Expected(ops), r.Units[0]); err != nil {
						t.Fatalf("%s: %v", gen.Ops(ops), err)
					}
					c.NonTrivial(gen.Ops(ops))
					c.Sample(func() string { return gen.Ops(ops) })
				})
			}
		}
	}
	hx.Exhaustive(t)
}

func lengths() []int {
	var l []int
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			l = append(l, i)
		}
	}
	add(0, 300)
	add(16384-40, 16384+3)
	if hx.Thorough() {
		add(2097152-64, 2097152+3)
		add(300, 5000)
	} else {
		for d := -3; d <= 20; d++ {
			l = append(l, 2097152-d)
		}
	}
	return l
}

// Statement texts and names of every length around the boundaries; ids around every bit.
func TestSizesAndIDs(t *testing.T) {
	hx.Rule(t, "statement, prepared statement and table names of every length 0..300 and around 2^14 and 2^21, and ids around every power of two, each between two other messages; non-trivial: all")
	text := gen.Pattern(2097152+64, 'A', 1)
	for i := range text {
		text[i] = 'a' + text[i]%26
	}
	run := func(ops []*gen.Op, c *hx.Case, key string) {
		ops = append([]*gen.Op{{Kind: gen.KStmt, Name: "first"}}, ops...)
		ops = append(ops, &gen.Op{Kind: gen.KStmt, Name: "last"})
		p := &gen.Prog{Ops: ops}
		x := xtorm.New(0)
		p.Run(&x.Builder, ops)
		r := &gen.Recorder{}
		x.Send(context.Background(), r)
		if len(r.Units) != 1 {
			t.Fatalf("%s: %d sends", key, len(r.Units))
		}
		if err := gen.MatchUnit(gen.Expected(ops), r.Units[0]); err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		c.NonTrivial(key)
		c.Sample(func() string { return key })
	}
	for _, n := range lengths() {
		name := string(text[:n])
		hx.Each(t, func(c *hx.Case) {
			run([]*gen.Op{
				{Kind: gen.KStmt, Name: name},
				{Kind: gen.KPrepare, ID: uint32(n), Name: name},
				{Kind: gen.KDelete, Name: name},
				{Kind: gen.KUpdate, Name: name},
				{Kind: gen.KInsert, Name: name, Columns: []string{name, "b"}},
			}, c, fmt.Sprintf("names of %d bytes", n))
		})
	}
	var ids []uint32
	for k := uint(0); k < 32; k++ {
		b := uint32(1) << k
		ids = append(ids, b-1, b, b+1, b|b>>1)
	}
	ids = append(ids, ^uint32(0), ^uint32(0)-1)
	for _, id := range ids {
		hx.Each(t, func(c *hx.Case) {
			run([]*gen.Op{
				{Kind: gen.KPrepare, ID: id, Name: "SELECT ?"},
				{Kind: gen.KExecute, ID: id, Args: []gen.Val{{V: int8(1), W: gen.Want{S: wire.Scalar{Type: wire.Sint, Int: 1}}}}},
				{Kind: gen.KExecute, ID: id},
				{Kind: gen.KDeallocate, ID: id},
			}, c, fmt.Sprintf("id %d", id))
		})
	}
}

// Inserted rows whose places in the unit differ by a power of two, or by anything near it.
func TestVariables(t *testing.T) {
	hx.Check(t, 1200, 20000, "2 to 5 InsertRows, separated by statements whose sizes put the next one 2^k + d bytes after the previous one (k 5 to 22, d -3 to 3), by others, or by nothing, optionally inside blocks; each id captured in a variable of its own and used once at the end; non-trivial: a separation of 2^k + d", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		p := &gen.Prog{}
		n := g.Int(2, 5, "rows")
		table := g.Name("table")
		if len(table) > 200 {
			table = table[:200]
		}
		cols := []string{"a"}
		one := gen.Ex{V: int64(1), W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Sint, Int: 1}}}, Nodes: 1}
		insert := func() *gen.Op {
			o := &gen.Op{Kind: gen.KInsertRow, Name: table, Columns: cols, Rows: [][]gen.Ex{{one}}, RowIdx: p.NRows}
			p.NRows++
			return o
		}
		size := func(ops []*gen.Op) int {
			q := &gen.Prog{Ops: ops}
			x := xtorm.New(0)
			q.Run(&x.Builder, ops)
			r := &gen.Recorder{}
			x.Send(context.Background(), r)
			if len(r.Units) != 1 {
				t.Fatalf("not sent")
			}
			return len(r.Units[0])
		}
		key := fmt.Sprintf("%d rows into %d:", n, len(table))
		nt, total := false, 0
		ops := []*gen.Op{}
		for i := 0; i < n; i++ {
			if i > 0 {
				switch g.Pick(4, "separation") {
				case 0:
				case 1:
					ops = append(ops, &gen.Op{Kind: gen.KStmt, Name: g.Name("stmt")})
				default:
					k := g.Int(5, 22, "k")
					d := g.Int(-3, 3, "d")
					// The statement's message adds a few bytes to its text, and the insert its own.
					pad := 1<<uint(k) + d - size([]*gen.Op{{Kind: gen.KInsertRow, Name: table, Columns: cols, Rows: [][]gen.Ex{{one}}}})
					best := -1
					over := 0
					if pad > 0 {
						over = size([]*gen.Op{{Kind: gen.KStmt, Name: text(pad)}}) - pad
					}
					for m := pad - over; m <= pad-over+1; m++ {
						if m >= 0 && size([]*gen.Op{{Kind: gen.KStmt, Name: text(m)}}) == pad {
							best = m
						}
					}
					if best >= 0 && total+best < 10<<20 {
						total += best
						ops = append(ops, &gen.Op{Kind: gen.KStmt, Name: text(best)})
						key += fmt.Sprintf(" 2^%d%+d", k, d)
						nt = true
					}
				}
			}
			o := insert()
			if g.Chance(20, "block") {
				o = &gen.Op{Kind: gen.KExpect, Ctx: xtorm.OpenExpectCtxCopyPrev, Body: []*gen.Op{o}}
			}
			ops = append(ops, o)
		}
		for i := 0; i < n; i++ {
			e := gen.Ex{V: p.Ref(i), W: &gen.EWant{Kind: wire.Variable, Var: i}, Nodes: 1}
			ops = append(ops, &gen.Op{Kind: gen.KInsert, Name: "use", Columns: cols, Rows: [][]gen.Ex{{e}}})
		}
		p.Ops = ops
		x := xtorm.New(0)
		p.Run(&x.Builder, ops)
		send(t, x, gen.Expected(ops))
		if nt {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

var texts = map[int]string{}

func text(n int) string {
	s, ok := texts[n]
	if !ok {
		s = strings.Repeat("s", n)
		if len(texts) < 4000 && n < 1<<16 {
			texts[n] = s
		}
	}
	return s
}

// Units of many operations, and blocks nested deeply.
func TestCounts(t *testing.T) {
	hx.Rule(t, "units of n operations of every kind in turn, n = 0..300 and around powers of two and ten up to 10001 (thorough: 100001), and n blocks inside each other, n = 0..100 (thorough: 1001); non-trivial: n > 1")
	run := func(ops []*gen.Op, n int, key string) {
		hx.Each(t, func(c *hx.Case) {
			p := &gen.Prog{Ops: ops}
			x := xtorm.New(n % 7 * 100)
			p.Run(&x.Builder, ops)
			r := &gen.Recorder{}
			if _, err := x.Send(context.Background(), r); err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			want := gen.Expected(ops)
			if len(want) > 0 || len(r.Units) > 0 {
				if len(r.Units) != 1 {
					t.Fatalf("%s: %d sends", key, len(r.Units))
				}
				if err := gen.MatchUnit(want, r.Units[0]); err != nil {
					t.Fatalf("%s: %v", key, err)
				}
			}
			if n > 1 {
				c.NonTrivial(key)
			}
			c.Sample(func() string { return key })
		})
	}
	for _, n := range gen.Counts(300, hx.N(10001, 100001)) {
		// All of one kind (a different one for each n), and of every kind in turn.
		rows := 0
		mk := func(i, kind int) *gen.Op {
			o := &gen.Op{Kind: kind, Name: fmt.Sprint("name", i), ID: uint32(i)}
			switch kind {
			case gen.KStmt, gen.KExecute:
				o.Args = []gen.Val{gen.NumberedArg(i)}
			case gen.KInsertRow:
				o.RowIdx = rows
				rows++
				fallthrough
			case gen.KInsert, gen.KInsertF:
				o.Columns, o.Rows = []string{"a"}, [][]gen.Ex{{gen.Numbered(i)}}
			case gen.KUpdate, gen.KUpdateF:
				o.Sets = []gen.SetEx{{Column: "a", V: gen.Numbered(i)}}
			case gen.KTx:
				o.Iso = xtorm.IsolationLevel(i % 6)
			case gen.KExpect:
				o.Ctx = xtorm.OpenExpectCtxEmpty
			}
			return o
		}
		one, all := make([]*gen.Op, n), make([]*gen.Op, n)
		for i := range one {
			one[i] = mk(i, n%gen.NKinds)
		}
		rows = 0
		for i := range all {
			all[i] = mk(i, i%gen.NKinds)
		}
		run(one, n, fmt.Sprintf("%d operations of kind %d", n, n%gen.NKinds))
		run(all, n, fmt.Sprintf("%d operations", n))
	}
	for _, n := range gen.Counts(100, hx.N(100, 1001)) {
		ops := []*gen.Op{{Kind: gen.KStmt, Name: "innermost"}}
		for i := 0; i < n; i++ {
			b := &gen.Op{Kind: gen.KTx, Iso: xtorm.IsolationLevel(i % 6), Body: ops}
			if i*n%3 == 1 {
				b = &gen.Op{Kind: gen.KExpect, Ctx: xtorm.OpenExpectCtxCopyPrev, Body: ops}
			}
			ops = []*gen.Op{b, {Kind: gen.KDeallocate, ID: uint32(i)}}
		}
		run(ops, n, fmt.Sprintf("%d blocks inside each other", n))
	}
}

// Messages of 16 and 256 MiB.
func TestHuge(t *testing.T) {
	hx.Rule(t, "statements, prepared statements and table names around 2^24 and 2^28 bytes, between other messages; non-trivial: all")
	for _, n := range gen.Huge(12) {
		for kind, op := range []*gen.Op{{Kind: gen.KStmt}, {Kind: gen.KPrepare, ID: 300}, {Kind: gen.KDelete}} {
			if n > 1<<25 && kind > 0 && !hx.Thorough() {
				continue
			}
			hx.Each(t, func(c *hx.Case) {
				op.Name = gen.HugeString(n)
				ops := []*gen.Op{{Kind: gen.KDeallocate, ID: 1}, op, {Kind: gen.KStmt, Name: "last"}}
				x := xtorm.New(0)
				(&gen.Prog{Ops: ops}).Run(&x.Builder, ops)
				r := &gen.Recorder{}
				x.Send(context.Background(), r)
				if len(r.Units) != 1 {
					t.Fatalf("%d sends", len(r.Units))
				}
				if err := gen.MatchUnit(gen.Expected(ops), r.Units[0]); err != nil {
					t.Fatalf("kind %d, %d bytes: %v", op.Kind, n, err)
				}
				key := fmt.Sprintf("kind %d, %d bytes", op.Kind, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
			runtime.GC()
		}
	}
}
