package c03

import (
	"context"
	"fmt"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

func check(t fataler, p *gen.Prog, cap int) {
	x := xtorm.New(cap)
	p.Run(&x.Builder, p.Ops)
	r := &gen.Recorder{}
	if _, err := x.Send(context.Background(), r); err != nil {
		t.Fatalf("supported values were refused: %v", err)
	}
	if len(r.Units) != 1 {
		t.Fatalf("%d sends", len(r.Units))
	}
	if err := gen.MatchUnit(gen.Expected(p.Ops), r.Units[0]); err != nil {
		t.Fatalf("%v", err)
	}
}

var kinds = []int{gen.KInsert, gen.KInsertF, gen.KInsertRow, gen.KUpdate, gen.KUpdateF, gen.KDelete}

// Random CRUD messages.
func TestCrud(t *testing.T) {
	hx.Check(t, 6000, 120000, "1 to 3 random Insert, InsertF, InsertRow, Update, UpdateF or Delete calls with random tables, columns, rows, assignments and criteria; non-trivial: some row value, assignment or criteria present", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		p := &gen.Prog{}
		o := gen.Opts{ExprDepth: 3}
		n := g.Int(1, 3, "n")
		nt := false
		for i := 0; i < n; i++ {
			left := 0
			op := g.OpOf(kinds[g.Pick(len(kinds), "kind")], p, o, 0, &left, "op")
			if g.Chance(3, "more rows") && len(op.Rows) > 0 && op.Kind != gen.KInsertRow {
				for len(op.Rows) < 60 {
					op.Rows = append(op.Rows, op.Rows[0])
				}
				c.Class("60 rows")
			}
			if i > 0 && g.Chance(20, "as before") {
				// The same call but for its values, or its columns.
				if q := p.Ops[i-1]; q.Kind == op.Kind && len(q.Columns) == len(op.Columns) {
					op.Name = q.Name
				}
			}
			p.Ops = append(p.Ops, op)
			nt = nt || op.Criteria != nil || len(op.Sets) > 0 || len(op.Rows) > 0 && len(op.Columns) > 0
		}
		if g.Chance(50, "hand") {
			// The caller keeps one set of slices and one map for all its calls.
			p.Hand = &gen.Hand{Reuse: true}
		}
		check(t, p, g.Int(0, 64, "cap")*g.Int(0, 20, "cap2"))
		for k := range g.Seen {
			c.Class(k)
		}
		if nt {
			c.NonTrivial(gen.Ops(p.Ops))
			c.Sample(func() string { return gen.Ops(p.Ops) })
		}
	})
}

func lengths() []int {
	var l []int
	add := func(a, b, step int) {
		for i := a; i <= b; i += step {
			l = append(l, i)
		}
	}
	add(0, 300, 1)
	add(16384-60, 16384+4, 1)
	add(2097152-50, 2097152+2, hx.N(3, 1))
	if hx.Thorough() {
		add(300, 16384-60, 11)
	}
	return l
}

func str(s string, coll uint64) *gen.EWant {
	return &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.String, Data: s, Collation: coll}}}
}

func oct(s string, ct uint32) *gen.EWant {
	return &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Octets, Data: s, Content: ct}}}
}

// Every literal type that carries a length, as row value and as assignment, at every length
// around the boundaries of the nested prefixes; rows, columns and criteria of those sizes.
func TestLengths(t *testing.T) {
	hx.Rule(t, "rows, assignments, columns and criteria whose values or names have every length 0..300 and around 2^14 and 2^21, for every literal type with a length; non-trivial: all")
	data := gen.Pattern(2097152+64, 5, 29)
	for _, n := range lengths() {
		b := data[:n]
		s := string(b)
		vals := []struct {
			gen.Ex
			name string
		}{
			{gen.Ex{V: s, W: str(s, 0)}, "string"},
			{gen.Ex{V: b, W: oct(s, 0)}, "[]byte"},
			{gen.Ex{V: xtorm.XML(b), W: oct(s, 3)}, "XML"},
			{gen.Ex{V: xtorm.XMLString(s), W: oct(s, 3)}, "XMLString"},
			{gen.Ex{V: xtorm.JSON(b), W: oct(s, 2)}, "JSON"},
			{gen.Ex{V: xtorm.JSONString(s), W: oct(s, 2)}, "JSONString"},
			{gen.Ex{V: xtorm.Geometry(b), W: oct(s, 1)}, "Geometry"},
			{gen.Ex{V: xtorm.String{Value: s, Collation: collation.UTF8mb4Bin}, W: str(s, 46)}, "String(46)"},
			{gen.Ex{V: &xtorm.String{Value: s, Collation: collation.UTF8mb40900AiCi}, W: str(s, 255)}, "*String(255)"},
			{gen.Column(s), "column"},
		}
		for i, v := range vals {
			hx.Each(t, func(c *hx.Case) {
				one := gen.Ex{V: true, W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Bool, Uint: 1}}}}
				p := &gen.Prog{}
				switch (n + i) % 3 {
				case 0:
					p.Ops = []*gen.Op{{Kind: gen.KInsert, Name: "t", Columns: []string{"a", "b"}, Rows: [][]gen.Ex{{v.Ex, one}, {one, v.Ex}}}}
				case 1:
					p.Ops = []*gen.Op{{Kind: gen.KUpdateF, Name: "t", Sets: []gen.SetEx{{Column: "a", V: v.Ex}, {Column: s, V: one}}}}
				case 2:
					crit := gen.Ex{V: xtorm.Like(v.V, true), W: &gen.EWant{Kind: wire.Operator, Name: "like", Params: []*gen.EWant{v.W, one.W}}}
					p.Ops = []*gen.Op{{Kind: gen.KDelete, Name: "t", Criteria: &crit}, {Kind: gen.KUpdate, Name: "t", Criteria: &crit, Sets: []gen.SetEx{{Column: s, V: one}}}}
				}
				p.Ops = append(p.Ops, &gen.Op{Kind: gen.KInsertF, Name: "u", Columns: []string{"c"}, Rows: [][]gen.Ex{{one}}, UseRowV: true})
				check(t, p, 0)
				key := fmt.Sprintf("%s of %d bytes, shape %d", v.name, n, (n+i)%3)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
		}
	}
}

// Row lengths: rows whose encoded size takes every value around the prefix boundaries.
func TestRowSizes(t *testing.T) {
	hx.Rule(t, "rows of k equal small values for k = 0..200 (row sizes 0..1600 in steps of one value) and rows of a null and a string of every length 90..140 and around 2^14, followed by another row; non-trivial: all")
	nullW := &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: wire.Scalar{Type: wire.Null}}}
	run := func(row []gen.Ex, key string, kind int) {
		hx.Each(t, func(c *hx.Case) {
			cols := make([]string, len(row))
			for i := range cols {
				cols[i] = fmt.Sprint("c", i)
			}
			p := &gen.Prog{Ops: []*gen.Op{{Kind: kind, Name: "t", Columns: cols, Rows: [][]gen.Ex{row, row}}}}
			if kind == gen.KInsertRow {
				p.Ops[0].Rows = p.Ops[0].Rows[:1]
			}
			check(t, p, 0)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		})
	}
	for k := 0; k <= hx.N(200, 2500); k++ {
		row := make([]gen.Ex, k)
		for i := range row {
			row[i] = gen.Ex{V: nil, W: nullW}
		}
		run(row, fmt.Sprintf("%d nulls", k), []int{gen.KInsert, gen.KInsertF, gen.KInsertRow}[k%3])
	}
	for _, n := range lengths() {
		if n < 80 {
			continue
		}
		s := string(gen.Pattern(n, 'a', 0))
		run([]gen.Ex{{V: nil, W: nullW}, {V: s, W: str(s, 0)}}, fmt.Sprintf("null and %d bytes", n), []int{gen.KInsert, gen.KInsertF, gen.KInsertRow}[n%3])
	}
}

// Integer and float literals around every power of two; 8 and 16 bit exhaustively.
func TestIntegers(t *testing.T) {
	hx.Rule(t, "all 8 and 16 bit integers exhaustively, 32 and 64 bit around every power of two (+-3) in both signs, as row values and assignments; non-trivial: all distinct values")
	i := 0
	one := func(v interface{}, s wire.Scalar, key string) {
		hx.Each(t, func(c *hx.Case) {
			e := gen.Ex{V: v, W: &gen.EWant{Kind: wire.Literal, Lit: gen.Want{S: s}}}
			p := &gen.Prog{}
			if i++; i%2 == 0 {
				p.Ops = []*gen.Op{{Kind: gen.KInsert, Name: "t", Columns: []string{"a", "b"}, Rows: [][]gen.Ex{{e, e}}}}
			} else {
				p.Ops = []*gen.Op{{Kind: gen.KUpdateF, Name: "t", Sets: []gen.SetEx{{Column: "a", V: e}, {Column: "b", V: e}}}}
			}
			check(t, p, 0)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		})
	}
	sint := func(x int64) wire.Scalar { return wire.Scalar{Type: wire.Sint, Int: x} }
	uint_ := func(x uint64) wire.Scalar { return wire.Scalar{Type: wire.Uint, Uint: x} }
	for i := 0; i < 256; i++ {
		one(uint8(i), uint_(uint64(i)), fmt.Sprint("uint8 ", i))
		one(int8(i), sint(int64(int8(i))), fmt.Sprint("int8 ", int8(i)))
	}
	for i := 0; i < 65536; i += hx.N(3, 1) {
		one(uint16(i), uint_(uint64(i)), fmt.Sprint("uint16 ", i))
		one(int16(i), sint(int64(int16(i))), fmt.Sprint("int16 ", int16(i)))
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			x := uint64(1)<<k + uint64(d)
			one(x, uint_(x), fmt.Sprint("uint64 ", x))
			one(uint(x), uint_(x), fmt.Sprint("uint ", x))
			one(int64(x), sint(int64(x)), fmt.Sprint("int64 ", int64(x)))
			one(int(x), sint(int64(x)), fmt.Sprint("int ", int64(x)))
			one(int64(-x), sint(int64(-x)), fmt.Sprint("int64 ", int64(-x)))
			if k < 32 {
				one(uint32(x), uint_(uint64(uint32(x))), fmt.Sprint("uint32 ", uint32(x)))
				one(int32(x), sint(int64(int32(x))), fmt.Sprint("int32 ", int32(x)))
				one(int32(-x), sint(int64(int32(-x))), fmt.Sprint("int32 ", int32(-x)))
			}
		}
	}
}

// Many rows, columns and assignments.
func TestCounts(t *testing.T) {
	hx.Rule(t, "Insert and InsertF of n rows of 1 or 2 values, rows of n columns, and UpdateF and Update of n assignments, n = 0..300 and around powers of two and ten up to 32769, each value telling its position; non-trivial: n > 1")
	for _, n := range gen.Counts(300, 32769) {
		run := func(key string, op *gen.Op) {
			hx.Each(t, func(c *hx.Case) {
				check(t, &gen.Prog{Ops: []*gen.Op{op, {Kind: gen.KDelete, Name: "next"}}}, 0)
				if n > 1 {
					c.NonTrivial(key)
				}
				c.Sample(func() string { return key })
			})
		}
		cols := []string{"a", "b"}[:1+n%2]
		var rows [][]gen.Ex
		var wide []string
		var row []gen.Ex
		var sets []gen.SetEx
		for i := 0; i < n; i++ {
			r := []gen.Ex{gen.Numbered(i)}
			if len(cols) == 2 {
				r = append(r, gen.Numbered(i+1))
			}
			rows = append(rows, r)
			wide = append(wide, fmt.Sprint("col", i))
			row = append(row, gen.Numbered(i))
			sets = append(sets, gen.SetEx{Column: wide[i], V: row[i]})
		}
		for _, kind := range []int{gen.KInsert, gen.KInsertF} {
			run(fmt.Sprintf("%d rows, kind %d", n, kind), &gen.Op{Kind: kind, Name: "t", Columns: cols, Rows: rows, UseRowV: n%3 == 0})
		}
		kind := []int{gen.KInsert, gen.KInsertF, gen.KInsertRow}[n%3]
		run(fmt.Sprintf("%d columns, kind %d", n, kind), &gen.Op{Kind: kind, Name: "t", Columns: wide, Rows: [][]gen.Ex{row}})
		run(fmt.Sprintf("%d assignments", n), &gen.Op{Kind: gen.KUpdateF, Name: "t", Sets: sets})
		if n < 1100 {
			run(fmt.Sprintf("map of %d assignments", n), &gen.Op{Kind: gen.KUpdate, Name: "t", Sets: sets})
		}
	}
}

// Values of 16 and 256 MiB.
func TestHuge(t *testing.T) {
	hx.Rule(t, "a string or byte string around 2^24 and 2^28 bytes as row value or assignment; non-trivial: all")
	for _, n := range gen.Huge(24) {
		s := gen.HugeString(n)
		for i, v := range []gen.Ex{{V: s, W: str(s, 0)}, {V: gen.HugeBytes(n), W: oct(s, 0)}} {
			hx.Each(t, func(c *hx.Case) {
				one := gen.Numbered(2)
				p := &gen.Prog{Ops: []*gen.Op{{Kind: gen.KInsert, Name: "t", Columns: []string{"a", "b"}, Rows: [][]gen.Ex{{v, one}, {one, one}}}}}
				if i == 1 {
					p.Ops = []*gen.Op{{Kind: gen.KUpdateF, Name: "t", Sets: []gen.SetEx{{Column: "a", V: v}, {Column: "b", V: one}}}}
				}
				p.Ops = append(p.Ops, &gen.Op{Kind: gen.KDeallocate, ID: 1})
				check(t, p, 0)
				key := fmt.Sprintf("%T of %d bytes", v.V, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
			runtime.GC()
		}
	}
}
