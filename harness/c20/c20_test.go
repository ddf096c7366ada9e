package c20

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// same compares collation names; the server's utf8 was renamed utf8mb3.
func same(got, want string) bool {
	if strings.HasPrefix(want, "utf8_") && got == "utf8mb3_"+want[len("utf8_"):] {
		return true
	}
	return got == want
}

// Every exported constant against the server's table.
func TestConstants(t *testing.T) {
	hx.Rule(t, "every exported constant, compared with the server's id and name; all are non-trivial")
	names := map[string]string{}
	for _, e := range table {
		hx.Each(t, func(c *hx.Case) {
			if uint64(e.c) != e.id {
				t.Errorf("%s is %d, the server's id of %s is %d", e.ident, uint64(e.c), e.name, e.id)
			}
			s := e.c.String()
			if !same(s, e.name) {
				t.Errorf("%s (%d) prints as %q, the server calls it %q", e.ident, e.id, s, e.name)
			}
			if o, ok := names[s]; ok {
				t.Errorf("%s and %s both print as %q", o, e.ident, s)
			}
			names[s] = e.ident
			if e.c.IsBinary() != (e.id == 63) {
				t.Errorf("%s.IsBinary() is %v", e.ident, e.c.IsBinary())
			}
			c.NonTrivial(e.ident)
			c.Sample(func() string { return fmt.Sprintf("%s = %d = %s", e.ident, e.id, s) })
		})
	}
	hx.Exhaustive(t)
}

// number is the number an unknown collation's text shows.
func number(s string) (string, bool) {
	i := strings.IndexAny(s, "0123456789")
	if i < 0 {
		return "", false
	}
	j := i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		j++
	}
	return s[i:j], !strings.ContainsAny(s[j:], "0123456789")
}

func checkNumber(n uint64) error {
	col := collation.Collation(n)
	s := col.String()
	for _, e := range table {
		if e.id == n {
			if !same(s, e.name) {
				return fmt.Errorf("%d prints as %q, the server calls it %q", n, s, e.name)
			}
			if col.IsBinary() != (n == 63) {
				return fmt.Errorf("Collation(%d).IsBinary() is %v", n, col.IsBinary())
			}
			return nil
		}
		if s == e.name {
			return fmt.Errorf("%d prints as %q, which is %d", n, s, e.id)
		}
	}
	if col.IsBinary() {
		return fmt.Errorf("Collation(%d) is binary", n)
	}
	if l, ok := later[n]; ok && s == l {
		return nil
	}
	if k, ok := number(s); !ok || k != strconv.FormatUint(n, 10) {
		return fmt.Errorf("the unknown collation %d prints as %q", n, s)
	}
	return nil
}

// Every number up to 70000.
func TestNumbers(t *testing.T) {
	hx.Rule(t, "every number from 0 to 70000; non-trivial: all")
	for n := uint64(0); n <= 70000; n++ {
		hx.Each(t, func(c *hx.Case) {
			if err := checkNumber(n); err != nil {
				t.Fatal(err)
			}
			c.NonTrivial(strconv.FormatUint(n, 10))
			c.Sample(func() string { return collation.Collation(n).String() })
		})
	}
	hx.Exhaustive(t)
}

// Any number, including those that share the low bits of a known id.
func TestAnyNumber(t *testing.T) {
	hx.Check(t, 60000, 1000000, "any 64-bit number, biased to powers of two and to known ids with high bits set; non-trivial: larger than any known id", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		n := g.Uint64(64, "n")
		if g.Chance(40, "alias") {
			n = table[g.Pick(len(table), "id")].id | 1<<uint(g.Int(9, 63, "bit"))
			if g.Chance(30, "more") {
				n |= g.Uint64(64, "high") << 16
			}
		}
		if err := checkNumber(n); err != nil {
			t.Fatalf("%v", err)
		}
		if n > 1000 {
			c.NonTrivial(strconv.FormatUint(n, 10))
			c.Sample(func() string { return fmt.Sprintf("%d: %s", n, collation.Collation(n)) })
		}
	})
}

// A string with a collation arrives with that id, as an argument and as an expression.
type arg struct {
	s string
	c collation.Collation
}

func (a arg) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendAnyString(p, tag, a.s, a.c), nil
}

func (a arg) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendExprString(p, tag, a.s, a.c), nil
}

func TestStrings(t *testing.T) {
	hx.Check(t, 16000, 200000, "1 to 6 strings of any length, each with an exported collation or any other id, as statement arguments, inserted values and criteria; non-trivial: at least one collation other than 0", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		var in []arg
		var vals []interface{}
		var desc []string
		nt := false
		for i, n := 0, g.Int(1, 6, "n"); i < n; i++ {
			a := arg{s: g.Name("s")}
			switch g.Pick(4, "coll") {
			case 0:
				a.c = collation.Collation(g.Uint64(63, "id"))
			case 1:
			default:
				a.c = table[g.Pick(len(table), "known")].c
			}
			nt = nt || a.c != 0
			in = append(in, a)
			switch g.Pick(3, "how") {
			case 0:
				vals = append(vals, a)
			case 1:
				vals = append(vals, xtorm.String{Value: a.s, Collation: a.c})
			case 2:
				vals = append(vals, &xtorm.String{Value: a.s, Collation: a.c})
			}
			desc = append(desc, fmt.Sprintf("%d bytes collation %d", len(a.s), uint64(a.c)))
		}
		x := xtorm.New(g.Int(0, 200, "cap"))
		x.StmtExecute("SELECT ?", vals...)
		cols := make([]string, len(in))
		for i := range cols {
			cols[i] = "c"
		}
		x.Insert("t", cols, [][]interface{}{vals})
		x.Delete("t", xtorm.In(xtorm.Column("a"), vals))
		rec := &gen.Recorder{}
		if _, err := x.Send(context.Background(), rec); err != nil {
			t.Fatalf("%v: %v", desc, err)
		}
		ms, err := wire.DecodeUnit(rec.Units[0])
		if err != nil {
			t.Fatalf("%v: %v", desc, err)
		}
		if len(ms) != 3 || len(ms[0].Args) != len(in) || len(ms[1].Rows) != 1 || len(ms[1].Rows[0]) != len(in) || ms[2].Criteria == nil || len(ms[2].Criteria.Params) != len(in)+1 {
			t.Fatalf("%v arrives as %v", desc, ms)
		}
		for i, a := range in {
			for k, got := range []wire.Scalar{ms[0].Args[i], ms[1].Rows[0][i].Lit, ms[2].Criteria.Params[i+1].Lit} {
				if got.Type != wire.String || got.Data != a.s || got.Collation != uint64(a.c) {
					t.Fatalf("%v: string %d arrives as %v (place %d)", desc, i, got, k)
				}
			}
		}
		if nt {
			key := strings.Join(desc, ", ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}
