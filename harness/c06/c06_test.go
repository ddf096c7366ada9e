package c06

import (
	"bytes"
	"context"
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/gen"
	"xtverif/hx"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

func unit(t fataler, x *xtorm.XPipe) []byte {
	r := &gen.Recorder{}
	if _, err := x.Send(context.Background(), r); err != nil {
		t.Fatalf("refused: %v", err)
	}
	if len(r.Units) == 0 {
		return nil
	}
	return r.Units[0]
}

func hasRows(ops []*gen.Op) bool {
	for _, o := range ops {
		if o.Kind == gen.KInsertRow || hasRows(o.Body) {
			return true
		}
	}
	return false
}

// single keeps at most one assignment in each map, whose order is not defined.
func single(ops []*gen.Op) {
	for _, o := range ops {
		if o.Kind == gen.KUpdate && len(o.Sets) > 1 {
			o.Sets = o.Sets[:1]
		}
		single(o.Body)
	}
}

// The same calls on builders of different capacity and history.
func TestHistories(t *testing.T) {
	hx.Check(t, 2500, 50000, "random programs encoded by builders of up to 12 capacities (around the program's own size) and by builders dirtied by other programs (successful or failed) and Reset, all compared byte for byte with a new builder of capacity 0; non-trivial: the program has 2 or more operations", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		p := g.Program(gen.Opts{MaxOps: 8, MaxDepth: 2, ExprDepth: 2})
		single(p.Ops)
		run := func(x *xtorm.XPipe) []byte {
			p.ResetIDs()
			p.Run(&x.Builder, p.Ops)
			return unit(t, x)
		}
		ref := run(xtorm.New(0))
		if err := gen.MatchUnit(gen.Expected(p.Ops), ref); err != nil && len(p.Ops) > 0 {
			t.Fatalf("%v", err)
		}
		compare := func(b []byte, how string) {
			if i := gen.Diff(b, ref); i >= 0 {
				t.Fatalf("%s: differs from a new builder at byte %d (%d bytes instead of %d)", how, i, len(b), len(ref))
			}
		}
		n := g.Int(1, 12, "ncaps")
		for i := 0; i < n; i++ {
			cp := 0
			switch g.Pick(3, "capkind") {
			case 0:
				cp = g.Int(0, len(ref)+64, "cap")
			case 1:
				cp = len(ref) - g.Int(-3, 40, "cap")
			case 2:
				cp = g.Int(0, 64, "cap")
			}
			if cp < 0 {
				cp = 0
			}
			compare(run(xtorm.New(cp)), fmt.Sprint("capacity ", cp))
		}
		x := xtorm.New(g.Int(0, 200, "cap0"))
		for h := g.Int(1, 3, "history"); h > 0; h-- {
			q := g.Program(gen.Opts{MaxOps: 6, MaxDepth: 2, ExprDepth: 1})
			if len(q.Ops) > 0 && g.Chance(30, "fail") {
				g.Inject(q.Ops[g.Pick(len(q.Ops), "where")], "inj")
				c.Class("failed before")
			}
			q.Run(&x.Builder, q.Ops)
			if g.Chance(50, "send") {
				x.Send(context.Background(), &gen.Recorder{})
			}
			x.Reset()
			compare(run(x), "reused builder")
			x.Reset()
		}
		// After other content: the same messages follow it (ids of inserted rows may differ).
		if !hasRows(p.Ops) {
			q := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 1, ExprDepth: 1})
			single(q.Ops)
			y := xtorm.New(g.Int(0, 400, "cap1"))
			q.Run(&y.Builder, q.Ops)
			before := unit(t, y)
			after := run(y)
			if !bytes.HasPrefix(after, before) {
				t.Fatalf("the messages already in the unit changed at byte %d of %d", gen.Diff(after, before), len(before))
			}
			compare(after[len(before):], "after other content")
			c.Class("after other content")
		}
		for k := range g.Seen {
			c.Class(k)
		}
		if p.Count >= 2 {
			c.NonTrivial(gen.Ops(p.Ops))
			c.Sample(func() string { return fmt.Sprintf("%d bytes: %s", len(ref), gen.Ops(p.Ops)) })
		}
	})
}

// What callers pass in is not changed, and changing it after the call changes nothing.
func TestArguments(t *testing.T) {
	hx.Check(t, 5000, 100000, "random programs whose argument lists, rows, columns and maps are checked for changes after each call and then overwritten, and whose byte slices and pointees are overwritten after the last call; the unit must still be the one asked for; non-trivial: something the caller owns was passed", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		p := g.Program(gen.Opts{MaxOps: 8, MaxDepth: 2, ExprDepth: 2})
		p.Hand = &gen.Hand{}
		frozen := g.Freeze()
		x := xtorm.New(g.Int(0, 3000, "cap"))
		if g.Chance(30, "dirty") {
			x.StmtExecute(string(bytes.Repeat([]byte{0xEE}, g.Int(0, 3000, "junk"))))
			x.Reset()
		}
		p.Run(&x.Builder, p.Ops)
		if len(p.Hand.Bad) > 0 {
			t.Fatalf("a call modified its arguments: %v", p.Hand.Bad)
		}
		if s := frozen.Changed(); s != "" {
			t.Fatalf("a call modified its arguments: %s", s)
		}
		g.Scribble()
		if len(p.Ops) == 0 {
			return
		}
		if err := gen.MatchUnit(gen.Expected(p.Ops), unit(t, x)); err != nil {
			t.Fatalf("after the arguments were overwritten: %v", err)
		}
		for k := range g.Seen {
			c.Class(k)
		}
		c.ClassIf(len(g.Owned) > 0, "owned bytes or pointees")
		if p.Hand.Calls > 0 || len(g.Owned) > 0 {
			c.NonTrivial(gen.Ops(p.Ops))
			c.Sample(func() string { return fmt.Sprintf("%d owned values: %s", len(g.Owned), gen.Ops(p.Ops)) })
		}
	})
}

// A Send in between, of a sender that scribbles over the buffer it was given after
// returning, is outside the contract; but the unit given to Send must survive a Send.
func TestResend(t *testing.T) {
	hx.Check(t, 800, 10000, "a program sent, extended and sent again: the second unit starts with the first; non-trivial: both parts non-empty", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		p := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 1, ExprDepth: 1})
		q := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 1, ExprDepth: 1})
		x := xtorm.New(g.Int(0, 500, "cap"))
		p.Run(&x.Builder, p.Ops)
		a := unit(t, x)
		q.Run(&x.Builder, q.Ops)
		b := unit(t, x)
		if !bytes.HasPrefix(b, a) {
			t.Fatalf("extending the unit changed what was in it")
		}
		if b2 := unit(t, x); !bytes.Equal(b, b2) {
			t.Fatalf("sending the unit changed it")
		}
		if p.Count > 0 && q.Count > 0 {
			c.NonTrivial(gen.Ops(p.Ops) + "|" + gen.Ops(q.Ops))
			c.Sample(func() string { return gen.Ops(p.Ops) + " | " + gen.Ops(q.Ops) })
		}
	})
}

type enc struct {
	name string
	// unset is set when the first four bytes are for the caller to fill in
	unset bool
	f     func(p []byte) ([]byte, error)
}

func ok(b []byte) ([]byte, error) { return b, nil }

// Each exported encoder appends to whatever buffer it is given.
func TestAppend(t *testing.T) {
	hx.Check(t, 6000, 120000, "an exported xproto encoder with random arguments appending to buffers of random length, spare capacity and stale content; non-trivial: the buffer has content or spare capacity", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		tag := uint8(g.Int(1, 15, "tag"))
		name := g.Name("name")
		data := g.Bytes("data")
		args := make([]interface{}, g.Int(0, 3, "nargs"))
		ops := make([]interface{}, len(args))
		for i := range args {
			args[i], ops[i] = g.Arg("arg").V, g.Operand(2, nil, "operand").V
		}
		coll := collation.Collation(g.Uint64(32, "coll"))
		ct := xproto.ContentType(g.Int(0, 3, "ct"))
		id := uint32(g.Uint64(32, "id"))
		var crit xproto.AppendExprFunc
		if g.Chance(60, "crit") {
			crit = g.Expr(2, nil, "crit").Fn()
		}
		cols := g.Cols(0, 3, "c")
		encs := []enc{
			{"StmtExecute", false, func(p []byte) ([]byte, error) { return xproto.StmtExecute(p, name, args) }},
			{"Prepare", false, func(p []byte) ([]byte, error) { return ok(xproto.Prepare(p, id, name)) }},
			{"Execute", false, func(p []byte) ([]byte, error) { return xproto.Execute(p, id, args) }},
			{"Deallocate", false, func(p []byte) ([]byte, error) { return ok(xproto.Deallocate(p, id)) }},
			{"Insert", true, func(p []byte) ([]byte, error) { return ok(xproto.Insert(p, name, cols)) }},
			{"AppendInsertRow", false, func(p []byte) ([]byte, error) { return xproto.AppendInsertRow(p, ops) }},
			{"Update", true, func(p []byte) ([]byte, error) { return xproto.Update(p, name, crit) }},
			{"AppendUpdateSet", false, func(p []byte) ([]byte, error) { return xproto.AppendUpdateSet(p, name, g0(ops)) }},
			{"Delete", false, func(p []byte) ([]byte, error) { return xproto.Delete(p, name, crit) }},
			{"Reset", false, func(p []byte) ([]byte, error) { return ok(xproto.Reset(p, id%2 == 0)) }},
			{"ExpectOpen", false, func(p []byte) ([]byte, error) {
				return ok(xproto.ExpectOpen(p, xproto.OpenExpectCtxEmpty, xproto.OpenConditionExpectNoError(true), xproto.OpenConditionExpectFieldExists(name)))
			}},
			{"ExpectClose", false, func(p []byte) ([]byte, error) { return ok(xproto.ExpectClose(p)) }},
			{"AppendAnyBytes", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendAnyBytes(p, tag, data, ct)) }},
			{"AppendAnyBytesString", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendAnyBytesString(p, tag, name, ct)) }},
			{"AppendAnyString", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendAnyString(p, tag, name, coll)) }},
			{"AppendExprString", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendExprString(p, tag, name, coll)) }},
			{"AppendExprBytes", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendExprBytes(p, tag, data, ct)) }},
			{"AppendExprBytesString", false, func(p []byte) ([]byte, error) { return ok(xproto.AppendExprBytesString(p, tag, name, ct)) }},
			{"AppendExprOperator", false, func(p []byte) ([]byte, error) { return xproto.AppendExprOperator(p, tag, name, ops) }},
			{"AppendExprFunctionCall", false, func(p []byte) ([]byte, error) { return xproto.AppendExprFunctionCall(p, tag, name, ops) }},
			{"AppendExprColumn", false, func(p []byte) ([]byte, error) { return xproto.AppendExprColumn(p, tag, name) }},
			{"AppendExprPlaceholder", false, func(p []byte) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, id) }},
			{"AppendExprVariable", false, func(p []byte) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }},
			{"AppendDuration", false, func(p []byte) ([]byte, error) {
				return ok(xproto.AppendDuration(p, time.Duration(id)*time.Millisecond))
			}},
		}
		e := encs[g.Pick(len(encs), "encoder")]
		g.Owned = append(g.Owned, data)
		frozen := g.Freeze()
		ref, err := e.f(nil)
		if err != nil {
			t.Fatalf("%s: %v", e.name, err)
		}
		for reps := g.Int(1, 4, "reps"); reps > 0; reps-- {
			n := g.Int(0, 40, "prefix")
			spare := g.Int(0, 40, "spare")
			if g.Chance(50, "fit") {
				spare = len(ref) - g.Int(-20, 40, "fit by")
				if spare < 0 {
					spare = 0
				}
			}
			stale := byte(g.Int(0, 255, "stale"))
			backing := bytes.Repeat([]byte{stale}, n+spare)
			prefix := gen.Pattern(n, byte(g.Int(0, 255, "p")), 7)
			copy(backing, prefix)
			got, err := e.f(backing[:n:len(backing)])
			if err != nil {
				t.Fatalf("%s: %v", e.name, err)
			}
			if !bytes.Equal(backing[:n], prefix) {
				t.Fatalf("%s changed the bytes before the end of the buffer", e.name)
			}
			if len(got) < n || !bytes.Equal(got[:n], prefix) {
				t.Fatalf("%s lost the content of the buffer", e.name)
			}
			tail, want := got[n:], ref
			if e.unset && len(tail) >= 4 {
				tail, want = tail[4:], want[4:]
			}
			if !bytes.Equal(tail, want) {
				t.Fatalf("%s: into a buffer of %d+%d bytes: differs at byte %d of %d", e.name, n, spare, gen.Diff(tail, want), len(want))
			}
			if n > 0 || spare > 0 {
				c.NonTrivial(fmt.Sprint(e.name, n, spare, stale, len(ref), name, id))
			}
			c.Sample(func() string {
				return fmt.Sprintf("%s of %d bytes into %d bytes with %d spare (stale %#x)", e.name, len(ref), n, spare, stale)
			})
		}
		if s := frozen.Changed(); s != "" {
			t.Fatalf("%s modified its arguments: %s", e.name, s)
		}
		c.Class(e.name)
	})
}

func g0(l []interface{}) interface{} {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

// Every operation with every spare capacity up to more than its size, so that each growth
// point inside it is hit.
func TestEveryCapacity(t *testing.T) {
	hx.Rule(t, "a fixed set of 14 operations, each encoded by a builder of every capacity from 0 to its size + 40, after 0, 1 and 7 bytes' worth of other messages and stale content; non-trivial: all")
	long := string(bytes.Repeat([]byte("n"), 126))
	ops := []func(b *xtorm.Builder){
		func(b *xtorm.Builder) { b.StmtExecute("SELECT ?", 1, "two", []byte{3}, time.Minute, nil, 2.5, true) },
		func(b *xtorm.Builder) { b.StmtExecute(long, long) },
		func(b *xtorm.Builder) { b.Prepare(1000, long) },
		func(b *xtorm.Builder) { b.Execute(1<<30, uint64(1)<<63, int64(-1)<<63, xtorm.JSONString(long)) },
		func(b *xtorm.Builder) { b.Deallocate(300) },
		func(b *xtorm.Builder) {
			b.Insert("t", []string{"a", "b"}, [][]interface{}{{1, "x"}, {long, xtorm.Column("c")}})
		},
		func(b *xtorm.Builder) {
			b.InsertF(long, []string{long}, func(i *xtorm.Insert) error {
				i.RowV(xtorm.Add(xtorm.Column("a"), 1))
				i.Row([]interface{}{nil})
				return nil
			})
		},
		func(b *xtorm.Builder) {
			id := b.InsertRow("t", []string{"a"}, []interface{}{1})
			b.Delete("u", xtorm.Eq(xtorm.Column("a"), id))
		},
		func(b *xtorm.Builder) {
			b.Update("t", xtorm.And(xtorm.Eq(xtorm.Column("a"), 1), xtorm.InV(xtorm.Column("b"), 1, 2, long)), map[string]interface{}{"c": xtorm.Concat("x", xtorm.Column("c"))})
		},
		func(b *xtorm.Builder) {
			b.UpdateF("t", nil, func(u *xtorm.Update) error {
				u.Set("a", 1)
				u.Set(long, xtorm.Not(xtorm.Not(xtorm.Column("b"))))
				u.Set("c", xtorm.String{Value: long, Collation: 300})
				return nil
			})
		},
		func(b *xtorm.Builder) { b.Delete(long, xtorm.Between(xtorm.Column("a"), 1, long)) },
		func(b *xtorm.Builder) {
			b.Tx(xtorm.IsolationLevelSerializable, func(b *xtorm.Builder) error { b.StmtExecute("x"); return nil })
		},
		func(b *xtorm.Builder) {
			b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { b.StmtExecute("x"); return nil })
		},
		func(b *xtorm.Builder) {
			b.Update("t", xtorm.DateSub(xtorm.Column("d"), time.Hour, xtorm.UnitDay), map[string]interface{}{"c": time.Unix(0, 0).UTC()})
		},
	}
	for i, op := range ops {
		for pre := 0; pre < 3; pre++ {
			prefix := func(b *xtorm.Builder) {
				switch pre {
				case 1:
					b.Deallocate(1)
				case 2:
					b.StmtExecute("stmt", "argument")
				}
			}
			x := xtorm.New(0)
			prefix(&x.Builder)
			op(&x.Builder)
			ref := unit(t, x)
			for cp := 0; cp <= len(ref)+40; cp++ {
				hx.Each(t, func(c *hx.Case) {
					y := xtorm.New(cp)
					if cp%2 == 1 && cp > 11 {
						y.StmtExecute(string(bytes.Repeat([]byte{0xFF}, cp-11))) // leaves stale bytes
						y.Reset()
					}
					prefix(&y.Builder)
					op(&y.Builder)
					if b := unit(t, y); !bytes.Equal(b, ref) {
						t.Fatalf("operation %d after prefix %d with capacity %d differs at byte %d of %d", i, pre, cp, gen.Diff(b, ref), len(ref))
					}
					key := fmt.Sprintf("operation %d, prefix %d, capacity %d", i, pre, cp)
					c.NonTrivial(key)
					c.Sample(func() string { return key })
				})
			}
		}
	}
}

// A builder used and Reset very often, for units of all sizes.
func TestLong(t *testing.T) {
	hx.Check(t, 100, 1500, "one builder used for 300 to 2000 units (some of 1 KiB to 4 MiB, some that fail), Reset in between, each compared with a new builder's; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		var ps []*gen.Prog
		var refs [][]byte
		for i := 0; i < 6; i++ {
			p := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 2, ExprDepth: 1})
			single(p.Ops)
			y := xtorm.New(0)
			p.Run(&y.Builder, p.Ops)
			ps, refs = append(ps, p), append(refs, append([]byte(nil), unit(t, y)...))
		}
		n, step := g.Int(300, 2000, "units"), g.Int(1, 1000, "step")
		x := xtorm.New(g.Int(0, 4096, "cap"))
		for i := 0; i < n; i++ {
			k := i * step % 1009
			switch {
			case k%97 == 3:
				x.StmtExecute(string(bytes.Repeat([]byte{byte(i)}, 1<<uint(10+k%13))), i)
			case k%89 == 5:
				x.StmtExecute("refused", func() {})
			default:
				p := ps[k%len(ps)]
				p.ResetIDs()
				p.Run(&x.Builder, p.Ops)
				if d := gen.Diff(unit(t, x), refs[k%len(ps)]); d >= 0 {
					t.Fatalf("unit %d differs from that of a new builder at byte %d", i, d)
				}
			}
			x.Reset()
		}
		key := fmt.Sprint(n, step, len(refs[0]), len(refs[1]), len(refs[2]))
		c.NonTrivial(key)
		c.Sample(func() string { return fmt.Sprintf("%d units, step %d", n, step) })
	})
}
