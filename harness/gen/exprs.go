package gen

import (
	"fmt"
	"strings"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/wire"
)

// EWant is what an expression must arrive as.
type EWant struct {
	Kind   int
	Name   string
	Lit    Want
	Var    int // index of the InsertRow whose id this refers to
	Params []*EWant
}

func (w *EWant) String() string {
	if w == nil {
		return "none"
	}
	switch w.Kind {
	case wire.Ident:
		return "`" + clip(w.Name) + "`"
	case wire.Literal:
		return w.Lit.String()
	case wire.Variable:
		return fmt.Sprintf("id#%d", w.Var)
	}
	var p []string
	for i, x := range w.Params {
		if i == 6 {
			p = append(p, fmt.Sprintf("...%d", len(w.Params)))
			break
		}
		p = append(p, x.String())
	}
	return clip(w.Name) + "(" + strings.Join(p, ", ") + ")"
}

func clip(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q..(%d)", s[:12], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Env binds InsertRow indices to the variable names seen on the wire.
type Env struct{ Vars map[int]string }

func bareVar(s string) string {
	s = strings.TrimPrefix(s, "@")
	if len(s) > 1 && s[0] == '`' && s[len(s)-1] == '`' {
		s = s[1 : len(s)-1]
	}
	return s
}

// Match checks a received expression.
func (w *EWant) Match(got wire.Expr, env *Env) error {
	if got.Kind != w.Kind {
		return fmt.Errorf("want %v, got %v", w, got)
	}
	switch w.Kind {
	case wire.Literal:
		return w.Lit.Match(got.Lit)
	case wire.Variable:
		name, ok := env.Vars[w.Var]
		if !ok {
			return fmt.Errorf("id #%d used before it was captured", w.Var)
		}
		if bareVar(got.Name) != name {
			return fmt.Errorf("want the variable %q of inserted row #%d, got %q", name, w.Var, got.Name)
		}
		return nil
	case wire.Ident:
		if got.Name != w.Name {
			return fmt.Errorf("want column %s, got %s", clip(w.Name), clip(got.Name))
		}
		return nil
	}
	if w.Kind == wire.FuncCall && !strings.EqualFold(got.Name, w.Name) || w.Kind == wire.Operator && got.Name != w.Name {
		return fmt.Errorf("want %v, got %v", w, got)
	}
	if len(got.Params) != len(w.Params) {
		return fmt.Errorf("%s: want %d operands, got %d", w.Name, len(w.Params), len(got.Params))
	}
	for i := range w.Params {
		if err := w.Params[i].Match(got.Params[i], env); err != nil {
			return fmt.Errorf("%s operand %d: %w", w.Name, i, err)
		}
	}
	return nil
}

// Ex is an operand (any value usable in an expression) and what it must arrive as.
type Ex struct {
	V     interface{}
	W     *EWant
	Depth int
	Nodes int
	Bad   *Fault // cannot be encoded
}

// Fn returns the expression function; V must be an expression.
func (e Ex) Fn() xproto.AppendExprFunc { return e.V.(xproto.AppendExprFunc) }

type exprFunc = xproto.AppendExprFunc

type unary struct {
	Name string
	Op   string
	F    func(a interface{}) exprFunc
}
type binary struct {
	Name string
	Op   string
	F    func(a, b interface{}) exprFunc
}

// The operator names are those of the X Protocol's Operator message.
var (
	Unaries = []unary{
		{"Not", "!", xtorm.Not}, {"Plus", "sign_plus", xtorm.Plus}, {"Minus", "sign_minus", xtorm.Minus},
	}
	Binaries = []binary{
		{"And", "&&", xtorm.And}, {"Or", "||", xtorm.Or}, {"Xor", "xor", xtorm.Xor},
		{"Eq", "==", xtorm.Eq}, {"Neq", "!=", xtorm.Neq}, {"Lte", "<=", xtorm.Lte}, {"Lt", "<", xtorm.Lt},
		{"Gt", ">", xtorm.Gt}, {"Gte", ">=", xtorm.Gte},
		{"BitAnd", "&", xtorm.BitAnd}, {"BitOr", "|", xtorm.BitOr}, {"BitXor", "^", xtorm.BitXor},
		{"LeftShift", "<<", xtorm.LeftShift}, {"RightShift", ">>", xtorm.RightShift},
		{"Add", "+", xtorm.Add}, {"Sub", "-", xtorm.Sub}, {"Mul", "*", xtorm.Mul}, {"Div", "/", xtorm.Div},
		{"IntDiv", "div", xtorm.IntDiv}, {"Mod", "%", xtorm.Mod},
		{"Is", "is", xtorm.Is}, {"IsNot", "is_not", xtorm.IsNot},
		{"Regexp", "regexp", xtorm.Regexp}, {"NotRegexp", "not_regexp", xtorm.NotRegexp},
		{"Like", "like", xtorm.Like}, {"NotLike", "not_like", xtorm.NotLike},
		{"ContIn", "cont_in", xtorm.ContIn}, {"NotContIn", "not_cont_in", xtorm.NotContIn},
		{"Overlaps", "overlaps", xtorm.Overlaps}, {"NotOverlaps", "not_overlaps", xtorm.NotOverlaps},
	}
	Units = []xtorm.DateUnit{
		xtorm.UnitMicroSecond, xtorm.UnitSecond, xtorm.UnitMinute, xtorm.UnitHour, xtorm.UnitDay, xtorm.UnitWeek,
		xtorm.UnitMonth, xtorm.UnitQuarter, xtorm.UnitYear, xtorm.UnitSecondMicrosecond, xtorm.UnitMinuteMicrosecond,
		xtorm.UnitMinuteSecond, xtorm.UnitHourMicrosecond, xtorm.UnitHourSecond, xtorm.UnitHourMinute,
		xtorm.UnitDayMicrosecond, xtorm.UnitDaySecond, xtorm.UnitDayMinute, xtorm.UnitDayHour,
	}
	UnitNames = []string{
		"MICROSECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK",
		"MONTH", "QUARTER", "YEAR", "SECOND_MICROSECOND", "MINUTE_MICROSECOND",
		"MINUTE_SECOND", "HOUR_MICROSECOND", "HOUR_SECOND", "HOUR_MINUTE",
		"DAY_MICROSECOND", "DAY_SECOND", "DAY_MINUTE", "DAY_HOUR",
	}
)

func op(name string, fn exprFunc, params ...Ex) Ex {
	return node(wire.Operator, name, fn, params)
}

func node(kind int, name string, fn exprFunc, params []Ex) Ex {
	e := Ex{V: fn, W: &EWant{Kind: kind, Name: name}, Nodes: 1}
	for _, p := range params {
		e.W.Params = append(e.W.Params, p.W)
		e.Nodes += p.Nodes
		if p.Depth >= e.Depth {
			e.Depth = p.Depth
		}
	}
	e.Depth++
	return e
}

func vs(l []Ex) []interface{} {
	r := make([]interface{}, len(l))
	for i := range l {
		r[i] = l[i].V
	}
	return r
}

// given returns the values of l in a slice with spare capacity, which Changed then watches.
func (g *G) given(l []Ex) []interface{} {
	r := make([]interface{}, len(l))
	for i := range l {
		r[i] = l[i].V
	}
	r = with[interface{}](r, 2, spare)
	g.lists = append(g.lists, givenList{r, append([]interface{}(nil), r...)})
	return r
}

func lit(v Val) Ex {
	return Ex{V: v.V, W: &EWant{Kind: wire.Literal, Lit: v.W}, Nodes: 1}
}

// Column returns a column expression.
func Column(name string) Ex {
	return Ex{V: xtorm.Column(name), W: &EWant{Kind: wire.Ident, Name: name}, Nodes: 1, Depth: 1}
}

// Refs are expressions for ids of rows inserted earlier in the unit.
type Refs struct {
	N   int                     // number of InsertRows so far
	Get func(i int) interface{} // the expression returned by the i-th
	Of  *Prog
}

func (r *Refs) of() *Prog {
	if r == nil {
		return nil
	}
	return r.Of
}

// Operand draws an operand: literal, column or expression.
func (g *G) Operand(depth int, refs *Refs, label string) Ex {
	// Now and then an operand used before, in this unit.
	if of := refs.of(); of != g.operandsOf {
		g.operands, g.operandsOf = nil, of
	}
	if len(g.operands) > 0 && g.Chance(8, label+".again") {
		g.note("operand used again")
		return g.operands[g.Pick(len(g.operands), label+".which")]
	}
	e := g.operand(depth, refs, label)
	if len(g.operands) < 24 && e.Nodes < 40 {
		g.operands = append(g.operands, e)
	}
	return e
}

func (g *G) operand(depth int, refs *Refs, label string) Ex {
	k := g.Int(0, 9, label+".k")
	switch {
	case depth > 0 && k >= 6:
		return g.Expr(depth, refs, label)
	case k == 5:
		return Column(g.Name(label + ".col"))
	case k == 4 && refs != nil && refs.N > 0:
		i := g.Pick(refs.N, label+".ref")
		g.note("id reference")
		return Ex{V: refs.Get(i), W: &EWant{Kind: wire.Variable, Var: i}, Nodes: 1}
	}
	return lit(g.Literal(label))
}

// Expr draws an expression of at most the given depth (always an expression function).
func (g *G) Expr(depth int, refs *Refs, label string) Ex {
	d := depth - 1
	operand := func(i int) Ex { return g.Operand(d, refs, fmt.Sprintf("%s.%d", label, i)) }
	if depth <= 0 {
		return Column(g.Name(label + ".col"))
	}
	switch k := g.Int(0, 19, label+".op"); {
	case k == 0:
		return Column(g.Name(label + ".col"))
	case k <= 2:
		u := Unaries[g.Pick(len(Unaries), label+".un")]
		a := operand(0)
		g.note(u.Name)
		return op(u.Op, u.F(a.V), a)
	case k <= 9:
		b := Binaries[g.Pick(len(Binaries), label+".bin")]
		x, y := operand(0), operand(1)
		g.note(b.Name)
		return op(b.Op, b.F(x.V, y.V), x, y)
	case k <= 11:
		x, y, z := operand(0), operand(1), operand(2)
		if k == 10 {
			g.note("Between")
			return op("between", xtorm.Between(x.V, y.V, z.V), x, y, z)
		}
		g.note("NotBetween")
		return op("not_between", xtorm.NotBetween(x.V, y.V, z.V), x, y, z)
	case k <= 14:
		l := g.list(d, refs, label)
		a := operand(0)
		all := append([]Ex{a}, l...)
		switch g.Pick(4, label+".in") {
		case 0:
			g.note("In")
			return op("in", xtorm.In(a.V, g.given(l)), all...)
		case 1:
			g.note("InV")
			return op("in", xtorm.InV(a.V, g.given(l)...), all...)
		case 2:
			g.note("NotIn")
			return op("not_in", xtorm.NotIn(a.V, g.given(l)), all...)
		}
		g.note("NotInV")
		return op("not_in", xtorm.NotInV(a.V, g.given(l)...), all...)
	case k <= 16:
		x, y := operand(0), operand(1)
		i := g.Pick(len(Units), label+".unit")
		u := lit(Val{V: nil, W: Want{S: wire.Scalar{Type: wire.Octets, Data: UnitNames[i]}}})
		if k == 15 {
			g.note("DateAdd")
			return op("date_add", xtorm.DateAdd(x.V, y.V, Units[i]), x, y, u)
		}
		g.note("DateSub")
		return op("date_sub", xtorm.DateSub(x.V, y.V, Units[i]), x, y, u)
	case k == 17:
		l := g.list(d, refs, label)
		g.note("Concat")
		return node(wire.FuncCall, "CONCAT", xtorm.Concat(g.given(l)...), l)
	case k == 18:
		switch g.Pick(3, label+".nullary") {
		case 0:
			g.note("Default")
			return op("default", xtorm.Default())
		case 1:
			g.note("RowCount")
			return node(wire.FuncCall, "ROW_COUNT", xtorm.RowCount(), nil)
		}
		g.note("LastInsertID")
		return node(wire.FuncCall, "LAST_INSERT_ID", xtorm.LastInsertID(), nil)
	}
	// User-level operator or function through the exported encoders.
	l := g.list(d, refs, label)
	name := g.Name(label + ".fn")
	if g.Pick(2, label+".uf") == 0 {
		g.note("user operator")
		p := g.given(l)
		return node(wire.Operator, name, func(b []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprOperatorV(b, tag, name, p...)
		}, l)
	}
	g.note("user function")
	p := g.given(l)
	return node(wire.FuncCall, name, func(b []byte, tag uint8) ([]byte, error) {
		return xproto.AppendExprFunctionCallV(b, tag, name, p...)
	}, l)
}

func (g *G) list(d int, refs *Refs, label string) []Ex {
	n := 0
	switch k := g.Int(0, 19, label+".nk"); {
	case k < 17:
		n = g.Int(0, 4, label+".n")
	case k < 19:
		n = g.Int(5, 40, label+".n")
		d = 0
	default:
		n = g.Int(100, 140, label+".n")
		d = 0
		g.note("wide")
	}
	l := make([]Ex, n)
	for i := range l {
		if n > 40 {
			x := int64(i)
			l[i] = lit(Val{V: x, W: Want{S: wire.Scalar{Type: wire.Sint, Int: x}}, Class: "int64"})
		} else {
			l[i] = g.Operand(d, refs, fmt.Sprintf("%s.l%d", label, i))
		}
	}
	return l
}

// Chain wraps e in n nested operators.
func (g *G) Chain(e Ex, n int, label string) Ex {
	g.note("chain")
	a := g.Int(0, 1000, label+".a")
	for i := 0; i < n; i++ {
		if (a+i)%3 == 0 {
			u := Unaries[(a+i)%len(Unaries)]
			e = op(u.Op, u.F(e.V), e)
		} else {
			b := Binaries[(a+i)%len(Binaries)]
			x := int64(i)
			l := lit(Val{V: x, W: Want{S: wire.Scalar{Type: wire.Sint, Int: x}}, Class: "int64"})
			if i%2 == 0 {
				e = op(b.Op, b.F(e.V, l.V), e, l)
			} else {
				e = op(b.Op, b.F(l.V, e.V), l, e)
			}
		}
	}
	return e
}

// NullEx is the literal NULL.
func NullEx() Ex { return Ex{V: nil, W: &EWant{Kind: wire.Literal, Lit: null}, Nodes: 1} }
