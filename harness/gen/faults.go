package gen

import (
	"fmt"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"
)

// NBadArgs and NBadExprs count the variants below.
const (
	NBadArgs  = 23
	NBadExprs = NBadArgs + 4
)

// BadArg returns variant k of an argument that cannot be encoded.
func BadArg(k, n int) Val {
	v, cause := unsupported(k, n)
	return Val{V: v, Class: "bad", Bad: &Fault{cause, fmt.Sprintf("argument %T", v)}}
}

// BadExpr returns variant k of an operand that cannot be encoded.
func BadExpr(k, n int) Ex {
	e := causeOf(n)
	fn := func(f xproto.AppendExprFunc, what string) Ex {
		return Ex{V: f, Bad: &Fault{e, what}}
	}
	switch k {
	case NBadArgs + 0:
		return fn(func(p []byte, tag uint8) ([]byte, error) { return nil, e }, "failing expression returning nil")
	case NBadArgs + 1:
		return fn(func(p []byte, tag uint8) ([]byte, error) { return p, e }, "failing expression")
	case NBadArgs + 2:
		return fn(func(p []byte, tag uint8) ([]byte, error) { return append(p, 1, 2, 3), e }, "failing expression leaving junk")
	case NBadArgs + 3:
		return Ex{V: xproto.AppendExprFunc(nil), Bad: &Fault{nil, "nil expression"}}
	}
	v, cause := unsupported(k, n)
	return Ex{V: v, Bad: &Fault{cause, fmt.Sprintf("operand %T", v)}}
}

// Wrap buries a failing operand in variant k of an expression.
func Wrap(e Ex, k int) Ex {
	w := func(f xproto.AppendExprFunc) Ex { return Ex{V: f, Bad: e.Bad} }
	switch k % 7 {
	case 0:
		return w(xtorm.Not(e.V))
	case 1:
		return w(xtorm.And(e.V, xtorm.Column("c")))
	case 2:
		return w(xtorm.Eq(xtorm.Column("a long column name that takes some room in the buffer"), e.V))
	case 3:
		return w(xtorm.InV("x", 1, e.V, 2))
	case 4:
		return w(xtorm.Concat("a", e.V))
	case 5:
		return w(xtorm.Between(1, 2, e.V))
	}
	return w(xtorm.DateAdd(e.V, 1, xtorm.UnitDay))
}

// Bad draws a failing operand, possibly buried.
func (g *G) Bad(label string) Ex {
	e := BadExpr(g.Pick(NBadExprs, label+".bad"), g.Int(0, 1000000, label+".n"))
	for i := g.Int(0, 3, label+".bury"); i > 0; i-- {
		e = Wrap(e, g.Int(0, 6, label+".wrap"))
	}
	return e
}

// Inject makes op fail in a drawn way and describes how.
func (g *G) Inject(op *Op, label string) string {
	callback := func() string {
		op.CallbackErr = causeOf(g.Int(0, 1000000, label+".cb"))
		return "callback error"
	}
	criteria := func() string {
		e := g.Bad(label + ".crit")
		if _, ok := e.V.(xproto.AppendExprFunc); !ok || e.V.(xproto.AppendExprFunc) == nil {
			e = Wrap(e, g.Int(0, 6, label+".wrap"))
		}
		op.Criteria = &e
		return "criteria: " + e.Bad.What
	}
	value := func() string {
		e := g.Bad(label + ".val")
		if len(op.Rows) == 0 || len(op.Columns) == 0 {
			op.Columns = []string{"c0", "c1"}
			one := Ex{V: int64(1)}
			op.Rows = [][]Ex{{one, one}}
		}
		i := g.Pick(len(op.Rows), label+".row")
		row := append([]Ex{}, op.Rows[i]...)
		if len(row) == 0 {
			return "" // already of the wrong length
		}
		row[g.Pick(len(row), label+".col")] = e
		op.Rows[i] = row
		return "value: " + e.Bad.What
	}
	set := func() string {
		e := g.Bad(label + ".set")
		i := g.Int(0, len(op.Sets), label+".at")
		l := append([]SetEx{}, op.Sets[:i]...)
		l = append(l, SetEx{fmt.Sprintf("bad%d", len(op.Sets)), e})
		op.Sets = append(l, op.Sets[i:]...)
		return "set: " + e.Bad.What
	}
	switch op.Kind {
	case KStmt, KExecute:
		a := BadArg(g.Pick(NBadArgs, label+".bad"), g.Int(0, 1000000, label+".n"))
		if g.Pick(4, label+".p") == 3 {
			inner := a.V
			a.V = &inner // a pointer to an interface holding it
		}
		i := g.Int(0, len(op.Args), label+".at")
		l := append([]Val{}, op.Args[:i]...)
		op.Args = append(append(l, a), op.Args[i:]...)
		return a.Bad.What
	case KInsert:
		if g.Pick(3, label+".how") == 2 {
			n := g.Pick(4, label+".len")
			if n == len(op.Columns) {
				n++
			}
			row := make([]Ex, n)
			for i := range row {
				row[i] = Ex{V: "v"}
			}
			i := g.Int(0, len(op.Rows), label+".at")
			l := append([][]Ex{}, op.Rows[:i]...)
			op.Rows = append(append(l, row), op.Rows[i:]...)
			return "row of the wrong length"
		}
		return value()
	case KInsertF:
		if g.Pick(3, label+".how") == 2 {
			return callback()
		}
		return value()
	case KInsertRow:
		return value()
	case KUpdate:
		if g.Pick(2, label+".how") == 0 {
			return criteria()
		}
		return set()
	case KUpdateF:
		switch g.Pick(3, label+".how") {
		case 0:
			return criteria()
		case 1:
			return set()
		}
		return callback()
	case KDelete:
		return criteria()
	case KTx:
		if g.Pick(2, label+".how") == 1 {
			op.Iso = xtorm.IsolationLevel(6 + g.Uint64(32, label+".iso"))
			return "unknown isolation level"
		}
		return callback()
	case KExpect:
		return callback()
	}
	return "" // Prepare and Deallocate cannot fail
}
