package c02

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

type fataler interface {
	Fatalf(string, ...interface{})
}

func check(t fataler, ops []*gen.Op, cap int) { checkHand(t, ops, cap, nil) }

func checkHand(t fataler, ops []*gen.Op, cap int, h *gen.Hand) {
	p := &gen.Prog{Ops: ops, Hand: h}
	x := xtorm.New(cap)
	p.Run(&x.Builder, ops)
	r := &gen.Recorder{}
	if _, err := x.Send(context.Background(), r); err != nil {
		t.Fatalf("supported arguments were refused: %v", err)
	}
	if len(r.Units) != 1 {
		t.Fatalf("%d sends", len(r.Units))
	}
	if err := gen.MatchUnit(gen.Expected(ops), r.Units[0]); err != nil {
		t.Fatalf("%v", err)
	}
}

func TestArguments(t *testing.T) {
	hx.Check(t, 12000, 250000, "argument lists (0 to 8, sometimes 200) of random type, value, pointer depth and size for StmtExecute or Execute; non-trivial: two or more arguments, not all NULL", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		n := g.Int(0, 8, "n")
		op := &gen.Op{Kind: []int{gen.KStmt, gen.KExecute}[g.Pick(2, "op")], Name: "SELECT ?", ID: uint32(g.Uint64(32, "id"))}
		key := fmt.Sprint(op.Kind, ":")
		notNull := false
		for i := 0; i < n; i++ {
			v := g.Arg("arg")
			op.Args = append(op.Args, v)
			notNull = notNull || v.W.Time != nil || v.W.Dur != nil || v.W.S.Type != wire.Null
			key += v.Class + "=" + v.W.String() + ", "
		}
		if n > 0 && g.Chance(1, "many") {
			for len(op.Args) < 200 {
				op.Args = append(op.Args, op.Args[len(op.Args)%n])
			}
			c.Class("200 arguments")
		}
		ops := []*gen.Op{op, {Kind: gen.KDeallocate, ID: 7}}
		var h *gen.Hand
		if g.Chance(25, "reuse") {
			// The same call again, with other values in the same slice.
			h = &gen.Hand{Reuse: true}
			op2 := *op
			op2.Args = nil
			for i := 0; i < n; i++ {
				op2.Args = append(op2.Args, g.Arg("arg2"))
			}
			ops = append(ops, &op2)
		}
		checkHand(t, ops, g.Int(0, 64, "cap")*g.Int(0, 20, "cap2"), h)
		for k := range g.Seen {
			c.Class(k)
		}
		if n >= 2 && notNull {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Integers: every width, around every power of two, both signs; 8 and 16 bit exhaustively.
func TestIntegers(t *testing.T) {
	hx.Rule(t, "all 8 and 16 bit integers exhaustively, 32 and 64 bit around every power of two (+-3) in both signs; as value and pointer; non-trivial: all distinct values")
	one := func(v interface{}, s wire.Scalar, key string) {
		hx.Each(t, func(c *hx.Case) {
			check(t, []*gen.Op{{Kind: gen.KStmt, Args: []gen.Val{{V: v, W: gen.Want{S: s}}, {V: nil, W: gen.Want{S: wire.Scalar{Type: wire.Null}}}}}}, 0)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		})
	}
	sint := func(x int64) wire.Scalar { return wire.Scalar{Type: wire.Sint, Int: x} }
	uint_ := func(x uint64) wire.Scalar { return wire.Scalar{Type: wire.Uint, Uint: x} }
	for i := 0; i < 256; i++ {
		u, s := uint8(i), int8(i)
		one(u, uint_(uint64(u)), fmt.Sprint("uint8 ", u))
		one(&s, sint(int64(s)), fmt.Sprint("*int8 ", s))
		one(s, sint(int64(s)), fmt.Sprint("int8 ", s))
	}
	for i := 0; i < 65536; i++ {
		u, s := uint16(i), int16(i)
		one(u, uint_(uint64(u)), fmt.Sprint("uint16 ", u))
		one(s, sint(int64(s)), fmt.Sprint("int16 ", s))
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			x := uint64(1)<<k + uint64(d)
			one(x, uint_(x), fmt.Sprint("uint64 ", x))
			one(uint(x), uint_(x), fmt.Sprint("uint ", x))
			one(int64(x), sint(int64(x)), fmt.Sprint("int64 ", int64(x)))
			one(int(x), sint(int64(x)), fmt.Sprint("int ", int64(x)))
			one(int64(-x), sint(int64(-x)), fmt.Sprint("int64 ", int64(-x)))
			one(int(-x), sint(int64(-x)), fmt.Sprint("int ", int64(-x)))
			if k < 32 {
				one(uint32(x), uint_(uint64(uint32(x))), fmt.Sprint("uint32 ", uint32(x)))
				one(int32(x), sint(int64(int32(x))), fmt.Sprint("int32 ", int32(x)))
				one(int32(-x), sint(int64(int32(-x))), fmt.Sprint("int32 ", int32(-x)))
			}
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64} {
		one(f, wire.Scalar{Type: wire.Double, Uint: math.Float64bits(f)}, fmt.Sprint("float64 ", f))
		one(float32(f), wire.Scalar{Type: wire.Float, Uint: uint64(math.Float32bits(float32(f)))}, fmt.Sprint("float32 ", float32(f)))
	}
}

// Every length-carrying type at every length around the boundaries of its nested prefixes.
func TestLengths(t *testing.T) {
	hx.Rule(t, "strings (three collations), byte slices, XML, JSON and geometry of every length 0..300 and around 2^14 and 2^21, in both argument messages; non-trivial: all")
	data := gen.Pattern(2097152+64, 3, 31)
	var l []int
	add := func(a, b, step int) {
		for i := a; i <= b; i += step {
			l = append(l, i)
		}
	}
	add(0, 300, 1)
	add(16384-48, 16384+4, 1)
	add(2097152-40, 2097152+2, hx.N(3, 1))
	if hx.Thorough() {
		add(300, 16384-48, 7)
	}
	for _, n := range l {
		b := data[:n]
		s := string(b)
		oct := func(ct uint32) gen.Want {
			return gen.Want{S: wire.Scalar{Type: wire.Octets, Data: s, Content: ct}}
		}
		str := func(c uint64) gen.Want {
			return gen.Want{S: wire.Scalar{Type: wire.String, Data: s, Collation: c}}
		}
		vals := []gen.Val{
			{V: s, W: str(0), Class: "string"}, {V: &s, W: str(0), Class: "*string"},
			{V: b, W: oct(0), Class: "[]byte"},
			{V: xtorm.XML(b), W: oct(3), Class: "XML"}, {V: xtorm.XMLString(s), W: oct(3), Class: "XMLString"},
			{V: xtorm.JSON(b), W: oct(2), Class: "JSON"}, {V: xtorm.JSONString(s), W: oct(2), Class: "JSONString"},
			{V: xtorm.Geometry(b), W: oct(1), Class: "Geometry"},
			{V: xtorm.String{Value: s, Collation: collation.Big5ChineseCi}, W: str(1), Class: "String(1)"},
			{V: xtorm.String{Value: s, Collation: collation.UTF8mb40900AiCi}, W: str(255), Class: "String(255)"},
			{V: xtorm.String{Value: s, Collation: 20000}, W: str(20000), Class: "String(20000)"},
			{V: &xtorm.String{Value: s}, W: str(0), Class: "*String(0)"},
		}
		for i, v := range vals {
			hx.Each(t, func(c *hx.Case) {
				kind := []int{gen.KStmt, gen.KExecute}[(n+i)%2]
				check(t, []*gen.Op{{Kind: kind, Args: []gen.Val{v, {V: true, W: gen.Want{S: wire.Scalar{Type: wire.Bool, Uint: 1}}}}}, {Kind: gen.KDeallocate, ID: 1}}, 0)
				key := fmt.Sprintf("%s of %d bytes", v.Class, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
		}
	}
}

// Lists of many arguments.
func TestCounts(t *testing.T) {
	hx.Rule(t, "statements and executions with n arguments, n = 0..300 and around powers of two and ten up to 65537, each argument telling its position; non-trivial: n > 1")
	for _, n := range gen.Counts(300, 65537) {
		for _, kind := range []int{gen.KStmt, gen.KExecute} {
			hx.Each(t, func(c *hx.Case) {
				op := &gen.Op{Kind: kind, Name: "s", ID: 1}
				for i := 0; i < n; i++ {
					op.Args = append(op.Args, gen.NumberedArg(i))
				}
				check(t, []*gen.Op{op, {Kind: gen.KDeallocate, ID: 7}}, 0)
				key := fmt.Sprintf("%d arguments, kind %d", n, kind)
				if n > 1 {
					c.NonTrivial(key)
				}
				c.Sample(func() string { return key })
			})
		}
	}
}

// Arguments of 16 and 256 MiB.
func TestHuge(t *testing.T) {
	hx.Rule(t, "a string, byte string or JSON argument around 2^24 and 2^28 bytes, between others; non-trivial: all")
	for _, n := range gen.Huge(24) {
		s, b := gen.HugeString(n), gen.HugeBytes(n)
		for i, v := range []gen.Val{
			{V: s, W: gen.Want{S: wire.Scalar{Type: wire.String, Data: s}}},
			{V: b, W: gen.Want{S: wire.Scalar{Type: wire.Octets, Data: s}}},
			{V: xtorm.JSON(b), W: gen.Want{S: wire.Scalar{Type: wire.Octets, Data: s, Content: 2}}},
			{V: xtorm.String{Value: s, Collation: collation.UTF8mb4Bin}, W: gen.Want{S: wire.Scalar{Type: wire.String, Data: s, Collation: 46}}},
		} {
			if n > 1<<25 && i > 1 && !hx.Thorough() {
				continue
			}
			hx.Each(t, func(c *hx.Case) {
				check(t, []*gen.Op{{Kind: []int{gen.KStmt, gen.KExecute}[i%2], Args: []gen.Val{gen.NumberedArg(1), v, gen.NumberedArg(2)}}, {Kind: gen.KDeallocate, ID: 1}}, 0)
				key := fmt.Sprintf("%T of %d bytes", v.V, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
			runtime.GC()
		}
	}
}
