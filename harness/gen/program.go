package gen

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/wire"
)

// Kinds of operation.
const (
	KStmt = iota
	KPrepare
	KExecute
	KDeallocate
	KInsert
	KInsertF
	KInsertRow
	KUpdate
	KUpdateF
	KDelete
	KTx
	KExpect
	NKinds
)

var kindNames = []string{"StmtExecute", "Prepare", "Execute", "Deallocate", "Insert", "InsertF", "InsertRow", "Update", "UpdateF", "Delete", "Tx", "ExpectFailOnError"}

// SetEx is one assignment.
type SetEx struct {
	Column string
	V      Ex
}

// Op is one builder call.
type Op struct {
	Kind     int
	Name     string // statement or table
	ID       uint32
	Args     []Val
	Columns  []string
	Rows     [][]Ex
	Criteria *Ex
	Sets     []SetEx
	Body     []*Op
	Iso      xtorm.IsolationLevel
	Ctx      xtorm.OpenContext
	RowIdx   int
	UseRowV  bool

	// Faults, for the checks that inject them.
	CallbackErr error                // returned by the callback
	AfterCall   func(*xtorm.Builder) // run inside the callback, after the body
	InRows      func(*xtorm.Insert)
	InSets      func(*xtorm.Update)
	Recover     func(v interface{}) // recovers from a panic of the call
}

func (o *Op) String() string {
	s := kindNames[o.Kind]
	switch o.Kind {
	case KStmt:
		return fmt.Sprintf("%s(%s, %d args)", s, clip(o.Name), len(o.Args))
	case KPrepare:
		return fmt.Sprintf("%s(%d, %s)", s, o.ID, clip(o.Name))
	case KExecute:
		return fmt.Sprintf("%s(%d, %d args)", s, o.ID, len(o.Args))
	case KDeallocate:
		return fmt.Sprintf("%s(%d)", s, o.ID)
	case KInsert, KInsertF, KInsertRow:
		return fmt.Sprintf("%s(%s, %d cols, %d rows)", s, clip(o.Name), len(o.Columns), len(o.Rows))
	case KUpdate, KUpdateF:
		return fmt.Sprintf("%s(%s where %s, %d sets)", s, clip(o.Name), o.where(), len(o.Sets))
	case KDelete:
		return fmt.Sprintf("%s(%s where %s)", s, clip(o.Name), o.where())
	case KTx:
		return fmt.Sprintf("Tx(iso %d){%s}", o.Iso, Ops(o.Body))
	}
	return fmt.Sprintf("Expect(ctx %d){%s}", o.Ctx, Ops(o.Body))
}

func (o *Op) where() string {
	if o.Criteria == nil {
		return "nil"
	}
	return o.Criteria.W.String()
}

// Ops formats a list of operations.
func Ops(ops []*Op) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.String())
	}
	return strings.Join(l, "; ")
}

// Prog is a unit of work.
type Prog struct {
	Ops   []*Op
	ids   map[int]xproto.AppendExprFunc
	NRows int // InsertRows
	Count int // operations
	Depth int

	all []*Op    // the operations drawn so far
	sid []uint32 // the statement ids drawn so far

	// Hand, when set, gives each call copies of its slices and maps, notes in *Bad any that
	// the call changed, and overwrites them as soon as the call has returned.
	Hand *Hand
}

// Hand checks what calls do with the slices and maps they are given.
type Hand struct {
	Bad   []string
	Calls int
	Reuse bool // give every call the same slices and the same map, with new contents

	list []interface{}
	cols []string
	rows [][]interface{}
	set  map[string]interface{}
}

// take gives s room for n elements and two more, reusing what it has, all of them x.
func take[T any](s []T, n int, x T) []T {
	if cap(s) < n+2 {
		s = make([]T, n+64)
	}
	s = s[:cap(s)]
	for i := range s {
		s[i] = x
	}
	return s[:n]
}

// spare is what the capacity beyond the length of a list given holds. It is the caller's.
const spare = "not given to the call"

// with returns l in a slice with n spare elements.
func with[T any](l []T, n int, x T) []T {
	c := append(make([]T, 0, len(l)+n), l...)
	for i := 0; i < n; i++ {
		c = append(c, x)
	}
	return c[:len(l)]
}

// untouched reports whether the elements beyond the length of c are still spare.
func untouched(c []interface{}) bool {
	for _, v := range c[len(c):cap(c)] {
		if v != interface{}(spare) {
			return false
		}
	}
	return true
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Chan, reflect.Map:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(va.Float()) == math.Float64bits(vb.Float())
	}
	return a == b
}

// give calls f with a copy of l.
func (p *Prog) give(l []interface{}, f func([]interface{})) {
	if p.Hand == nil {
		f(l)
		return
	}
	p.Hand.Calls++
	// Spare capacity that f must leave alone, too.
	c := with[interface{}](l, 2, spare)
	if p.Hand.Reuse {
		p.Hand.list = take[interface{}](p.Hand.list, len(l), spare)
		c = p.Hand.list
		copy(c, l)
	}
	full := c[:cap(c)]
	f(c)
	for i := range l {
		if !same(c[i], l[i]) {
			p.Hand.Bad = append(p.Hand.Bad, fmt.Sprintf("element %d of the list given changed from %v to %v", i, l[i], c[i]))
		}
	}
	if !untouched(c) {
		p.Hand.Bad = append(p.Hand.Bad, "the spare capacity of the list given was written")
	}
	for i := range full {
		full[i] = "changed after the call"
	}
}

func (p *Prog) giveCols(l []string, f func([]string)) {
	if p.Hand == nil {
		f(l)
		return
	}
	p.Hand.Calls++
	c := with(l, 2, spare)
	if p.Hand.Reuse {
		p.Hand.cols = take(p.Hand.cols, len(l), spare)
		c = p.Hand.cols
		copy(c, l)
	}
	f(c)
	for _, s := range c[len(c):cap(c)] {
		if s != spare {
			p.Hand.Bad = append(p.Hand.Bad, "the spare capacity of the columns given was written")
		}
	}
	for i := range c {
		if c[i] != l[i] {
			p.Hand.Bad = append(p.Hand.Bad, fmt.Sprintf("column %d given changed", i))
		}
		c[i] = "changed after the call"
	}
}

// ResetIDs forgets the ids returned in an earlier run.
func (p *Prog) ResetIDs() { p.ids = nil }

var errNoID = errors.New("the InsertRow referred to was not made")

func (p *Prog) refs() *Refs {
	return &Refs{Of: p, N: p.NRows, Get: func(i int) interface{} {
		return xproto.AppendExprFunc(func(b []byte, tag uint8) ([]byte, error) {
			if p.ids[i] == nil {
				return b, errNoID
			}
			return p.ids[i](b, tag)
		})
	}}
}

// Ref is the expression returned by the i-th InsertRow.
func (p *Prog) Ref(i int) interface{} { return p.refs().Get(i) }

// Opts bound a generated program.
type Opts struct {
	MaxOps    int
	MaxDepth  int // nesting of blocks
	ExprDepth int
	Small     bool // only small values
}

// Program draws a unit of work.
func (g *G) Program(o Opts) *Prog {
	p := &Prog{}
	n := g.Int(0, o.MaxOps, "nops")
	left := n
	p.Ops = g.ops(p, o, 0, &left, "p")
	return p
}

func (g *G) ops(p *Prog, o Opts, depth int, left *int, label string) []*Op {
	var r []*Op
	for *left > 0 {
		if depth > 0 && g.Int(0, 3, label+".end") == 0 {
			break
		}
		*left--
		r = append(r, g.Op(p, o, depth, left, label))
	}
	return r
}

// Cols draws distinct-position column names.
func (g *G) Cols(lo, hi int, label string) []string {
	c := make([]string, g.Int(lo, hi, label+".ncols"))
	for i := range c {
		c[i] = g.Name(label + ".col")
		if i > 0 && g.Chance(8, label+".same") {
			c[i] = c[i-1]
		}
	}
	return c
}

// Op draws one operation.
func (g *G) Op(p *Prog, o Opts, depth int, left *int, label string) *Op {
	p.Count++
	if depth+1 > p.Depth {
		p.Depth = depth + 1
	}
	hi := NKinds - 1
	if depth >= o.MaxDepth {
		hi = KDelete
	}
	if len(p.all) > 0 && g.Chance(10, label+".again") {
		// The same call once more: often the last one, or with one thing changed.
		e := p.all[len(p.all)-1]
		if g.Chance(40, label+".any") {
			e = p.all[g.Pick(len(p.all), label+".which")]
		}
		c := *e
		if c.Kind == KInsertRow {
			c.RowIdx = p.NRows
			p.NRows++
		}
		if c.Name != "" && g.Chance(25, label+".other") {
			c.Name = g.Name(label + ".table")
		}
		g.note("repeated call")
		return &c
	}
	return g.OpOf(g.Int(0, hi, label+".kind"), p, o, depth, left, label)
}

// OpOf draws an operation of the given kind.
func (g *G) OpOf(kind int, p *Prog, o Opts, depth int, left *int, label string) *Op {
	op := &Op{Kind: kind}
	g.note(kindNames[kind])
	row := func() []Ex {
		r := make([]Ex, len(op.Columns))
		for i := range r {
			r[i] = g.Operand(o.ExprDepth, p.refs(), label+".v")
		}
		return r
	}
	rows := func() {
		n := g.Int(0, 3, label+".nrows")
		for i := 0; i < n; i++ {
			if i > 0 && g.Chance(12, label+".same") {
				op.Rows = append(op.Rows, op.Rows[i-1])
				continue
			}
			op.Rows = append(op.Rows, row())
		}
	}
	criteria := func() {
		if g.Chance(70, label+".where") {
			e := g.Expr(1+g.Int(0, o.ExprDepth, label+".d"), p.refs(), label+".w")
			op.Criteria = &e
		}
	}
	args := func() {
		n := g.Int(0, 4, label+".nargs")
		for i := 0; i < n; i++ {
			op.Args = append(op.Args, g.Arg(label+".arg"))
		}
	}
	id := func() uint32 {
		if len(p.sid) > 0 && g.Chance(40, label+".sameid") {
			return p.sid[g.Pick(len(p.sid), label+".whichid")]
		}
		p.sid = append(p.sid, uint32(g.Uint64(32, label+".id")))
		return p.sid[len(p.sid)-1]
	}
	if kind < KTx {
		p.all = append(p.all, op)
	}
	switch kind {
	case KStmt:
		op.Name = g.Name(label + ".stmt")
		args()
	case KPrepare:
		op.ID, op.Name = id(), g.Name(label+".stmt")
	case KExecute:
		op.ID = id()
		args()
	case KDeallocate:
		op.ID = id()
	case KInsert, KInsertF:
		op.Name, op.Columns = g.Name(label+".table"), g.Cols(0, 4, label)
		op.UseRowV = g.Int(0, 1, label+".rowv") == 1
		rows()
	case KInsertRow:
		op.Name, op.Columns = g.Name(label+".table"), g.Cols(0, 4, label)
		op.Rows = [][]Ex{row()}
		op.RowIdx = p.NRows
		p.NRows++
	case KUpdate, KUpdateF:
		op.Name = g.Name(label + ".table")
		criteria()
		n := g.Int(0, 4, label+".nsets")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			c := g.Name(label + ".col")
			if i > 0 && g.Chance(15, label+".same") {
				c = op.Sets[i-1].Column
			}
			if kind == KUpdate {
				for seen[c] {
					c += fmt.Sprint(i)
				}
			}
			seen[c] = true
			v := NullEx()
			if !g.Chance(12, label+".null") {
				v = g.Operand(o.ExprDepth, p.refs(), label+".v")
			}
			op.Sets = append(op.Sets, SetEx{c, v})
		}
	case KDelete:
		op.Name = g.Name(label + ".table")
		criteria()
	case KTx:
		op.Iso = xtorm.IsolationLevel(g.Int(0, 5, label+".iso"))
		op.Body = g.ops(p, o, depth+1, left, label+"x")
	case KExpect:
		op.Ctx = []xtorm.OpenContext{xtorm.OpenExpectCtxCopyPrev, xtorm.OpenExpectCtxEmpty}[g.Pick(2, label+".ctx")]
		op.Body = g.ops(p, o, depth+1, left, label+"e")
	}
	return op
}

// Values returns the Go values of a row.
func Values(r []Ex) []interface{} { return vs(r) }

func argValues(a []Val) []interface{} {
	if len(a) == 0 {
		return nil
	}
	r := make([]interface{}, len(a))
	for i := range a {
		r[i] = a[i].V
	}
	return r
}

// Run makes the calls of ops on b.
func (p *Prog) Run(b *xtorm.Builder, ops []*Op) {
	for _, o := range ops {
		p.RunOp(b, o)
	}
}

// RunOp makes one call on b.
func (p *Prog) RunOp(b *xtorm.Builder, o *Op) {
	if o.Recover != nil {
		defer func() {
			if v := recover(); v != nil {
				o.Recover(v)
			}
		}()
	}
	var crit xproto.AppendExprFunc
	if o.Criteria != nil {
		crit = o.Criteria.Fn()
	}
	switch o.Kind {
	case KStmt:
		p.give(argValues(o.Args), func(a []interface{}) { b.StmtExecute(o.Name, a...) })
	case KPrepare:
		b.Prepare(o.ID, o.Name)
	case KExecute:
		p.give(argValues(o.Args), func(a []interface{}) { b.Execute(o.ID, a...) })
	case KDeallocate:
		b.Deallocate(o.ID)
	case KInsert:
		var rows [][]interface{}
		for _, r := range o.Rows {
			rows = append(rows, vs(r))
		}
		p.giveCols(o.Columns, func(cols []string) {
			if p.Hand == nil {
				b.Insert(o.Name, cols, rows)
				return
			}
			beyond := []interface{}{spare}
			given := with(make([][]interface{}, len(rows)), 2, beyond)
			if h := p.Hand; h.Reuse {
				h.rows = take(h.rows, len(rows), beyond)
				given = h.rows
				n := 0
				for i := range rows {
					n += len(rows[i])
				}
				h.list = take[interface{}](h.list, n, spare)
			}
			n := 0
			for i := range rows {
				if p.Hand.Reuse { // the rows in one backing array, one after the other
					given[i] = p.Hand.list[n : n+len(rows[i])]
					n += copy(given[i], rows[i])
					continue
				}
				given[i] = with[interface{}](rows[i], 2, spare)
			}
			b.Insert(o.Name, cols, given)
			for _, r := range given[len(given):cap(given)] {
				if len(r) != 1 || r[0] != interface{}(spare) {
					p.Hand.Bad = append(p.Hand.Bad, "the spare capacity of the rows given was written")
				}
			}
			if p.Hand.Reuse && !untouched(p.Hand.list) {
				p.Hand.Bad = append(p.Hand.Bad, "what follows the rows given was written")
			}
			for i := range rows {
				if len(given[i]) != len(rows[i]) {
					p.Hand.Bad = append(p.Hand.Bad, fmt.Sprintf("row %d given changed length", i))
					continue
				}
				if !p.Hand.Reuse && !untouched(given[i]) {
					p.Hand.Bad = append(p.Hand.Bad, fmt.Sprintf("the spare capacity of row %d given was written", i))
				}
				for j := range rows[i] {
					if !same(given[i][j], rows[i][j]) {
						p.Hand.Bad = append(p.Hand.Bad, fmt.Sprintf("row %d value %d given changed", i, j))
					}
					given[i][j] = "changed after the call"
				}
				given[i] = nil
			}
		})
	case KInsertF:
		p.giveCols(o.Columns, func(cols []string) {
			b.InsertF(o.Name, cols, func(i *xtorm.Insert) error {
				for _, r := range o.Rows {
					p.give(vs(r), func(l []interface{}) {
						if o.UseRowV {
							i.RowV(l...)
						} else {
							i.Row(l)
						}
					})
				}
				if o.InRows != nil {
					o.InRows(i)
				}
				return o.CallbackErr
			})
		})
	case KInsertRow:
		var id xproto.AppendExprFunc
		p.giveCols(o.Columns, func(cols []string) {
			p.give(vs(o.Rows[0]), func(l []interface{}) { id = b.InsertRow(o.Name, cols, l) })
		})
		if p.ids == nil {
			p.ids = map[int]xproto.AppendExprFunc{}
		}
		p.ids[o.RowIdx] = id
	case KUpdate:
		set := map[string]interface{}{}
		if h := p.Hand; h != nil && h.Reuse {
			if h.set == nil {
				h.set = set
			}
			set = h.set
			clear(set)
		}
		for _, s := range o.Sets {
			set[s.Column] = s.V.V
		}
		b.Update(o.Name, crit, set)
		if p.Hand != nil {
			p.Hand.Calls++
			if len(set) != len(o.Sets) {
				p.Hand.Bad = append(p.Hand.Bad, "the map given changed size")
			}
			for _, s := range o.Sets {
				if !same(set[s.Column], s.V.V) {
					p.Hand.Bad = append(p.Hand.Bad, "a value of the map given changed")
				}
				set[s.Column] = "changed after the call"
			}
		}
	case KUpdateF:
		b.UpdateF(o.Name, crit, func(u *xtorm.Update) error {
			for _, s := range o.Sets {
				u.Set(s.Column, s.V.V)
			}
			if o.InSets != nil {
				o.InSets(u)
			}
			return o.CallbackErr
		})
	case KDelete:
		b.Delete(o.Name, crit)
	case KTx:
		b.Tx(o.Iso, func(c *xtorm.Builder) error {
			p.Run(c, o.Body)
			if o.AfterCall != nil {
				o.AfterCall(c)
			}
			return o.CallbackErr
		})
	case KExpect:
		b.ExpectFailOnError(o.Ctx, func(c *xtorm.Builder) error {
			p.Run(c, o.Body)
			if o.AfterCall != nil {
				o.AfterCall(c)
			}
			return o.CallbackErr
		})
	}
}

// WMsg is what a message must be.
type WMsg struct {
	Type     int
	SQL      string // statement compared modulo case and white space
	Capture  int    // 1+index of the InsertRow whose id is captured
	Stmt     string
	ID       uint32
	Args     []Val
	Table    string
	Columns  []string
	Rows     [][]Ex
	Criteria *Ex
	Sets     []SetEx
	AnyOrder bool
	Ctx      int
}

var isoNames = map[xtorm.IsolationLevel]string{
	xtorm.IsolationLevelReadUncommitted: "READ UNCOMMITTED",
	xtorm.IsolationLevelReadCommitted:   "READ COMMITTED",
	xtorm.IsolationLevelRepeatableRead:  "REPEATABLE READ",
	xtorm.IsolationLevelSerializable:    "SERIALIZABLE",
}

// Expected returns the messages the server must receive for ops.
func Expected(ops []*Op) []WMsg {
	var r []WMsg
	sql := func(s string) { r = append(r, WMsg{Type: wire.StmtExecute, SQL: s}) }
	for _, o := range ops {
		switch o.Kind {
		case KStmt:
			r = append(r, WMsg{Type: wire.StmtExecute, Stmt: o.Name, Args: o.Args})
		case KPrepare:
			r = append(r, WMsg{Type: wire.Prepare, Stmt: o.Name, ID: o.ID})
		case KExecute:
			r = append(r, WMsg{Type: wire.Execute, ID: o.ID, Args: o.Args})
		case KDeallocate:
			r = append(r, WMsg{Type: wire.Deallocate, ID: o.ID})
		case KInsert, KInsertF:
			r = append(r, WMsg{Type: wire.CrudInsert, Table: o.Name, Columns: o.Columns, Rows: o.Rows})
		case KInsertRow:
			r = append(r, WMsg{Type: wire.CrudInsert, Table: o.Name, Columns: o.Columns, Rows: o.Rows})
			r = append(r, WMsg{Type: wire.StmtExecute, Capture: 1 + o.RowIdx})
		case KUpdate, KUpdateF:
			r = append(r, WMsg{Type: wire.CrudUpdate, Table: o.Name, Criteria: o.Criteria, Sets: o.Sets, AnyOrder: o.Kind == KUpdate})
		case KDelete:
			r = append(r, WMsg{Type: wire.CrudDelete, Table: o.Name, Criteria: o.Criteria})
		case KTx:
			if n, ok := isoNames[o.Iso]; ok {
				sql("SET TRANSACTION ISOLATION LEVEL " + n)
			}
			if o.Iso == xtorm.IsolationLevelSnapshot {
				sql("START TRANSACTION WITH CONSISTENT SNAPSHOT")
			} else {
				sql("START TRANSACTION")
			}
			r = append(r, Expected(o.Body)...)
			sql("COMMIT")
		case KExpect:
			ctx := 0 // EXPECT_CTX_COPY_PREV
			if o.Ctx == xtorm.OpenExpectCtxEmpty {
				ctx = 1
			}
			r = append(r, WMsg{Type: wire.ExpectOpen, Ctx: ctx})
			r = append(r, Expected(o.Body)...)
			r = append(r, WMsg{Type: wire.ExpectClose})
		}
	}
	return r
}

// NormSQL folds case and white space.
func NormSQL(s string) string {
	return strings.ToUpper(strings.Join(strings.Fields(strings.TrimRight(strings.TrimSpace(s), ";")), " "))
}

var captureRE = regexp.MustCompile("(?i)^\\s*SET\\s+@([^\\s=:]+)\\s*:?=\\s*LAST_INSERT_ID\\s*\\(\\s*\\)\\s*;?\\s*$")

// Captured returns the variable a statement captures LAST_INSERT_ID() into.
func Captured(stmt string) (string, bool) {
	m := captureRE.FindStringSubmatch(stmt)
	if m == nil {
		return "", false
	}
	return bareVar(m[1]), true
}

// MatchUnit checks a whole received unit.
func MatchUnit(want []WMsg, unit []byte) error {
	got, err := wire.DecodeUnit(unit)
	if err != nil {
		return fmt.Errorf("malformed unit: %w", err)
	}
	env := &Env{Vars: map[int]string{}}
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("message %d is missing: want %d messages, got %d", i, len(want), len(got))
		}
		if err := want[i].Match(got[i], env); err != nil {
			return fmt.Errorf("message %d: %w", i, err)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("%d extra messages, the first is %v", len(got)-len(want), got[len(want)])
	}
	return nil
}

// Match checks one received message.
func (w *WMsg) Match(got wire.Msg, env *Env) error {
	if got.Type != w.Type {
		return fmt.Errorf("want a message of type %d, got %v", w.Type, got)
	}
	matchArgs := func() error {
		if len(got.Args) != len(w.Args) {
			return fmt.Errorf("want %d arguments, got %d", len(w.Args), len(got.Args))
		}
		for i := range w.Args {
			if err := w.Args[i].W.Match(got.Args[i]); err != nil {
				return fmt.Errorf("argument %d (%s): %w", i, w.Args[i].Class, err)
			}
		}
		return nil
	}
	matchCriteria := func() error {
		if (got.Criteria == nil) != (w.Criteria == nil) {
			return fmt.Errorf("criteria given: %v, received: %v", w.Criteria != nil, got.Criteria != nil)
		}
		if w.Criteria == nil {
			return nil
		}
		if err := w.Criteria.W.Match(*got.Criteria, env); err != nil {
			return fmt.Errorf("criteria: %w", err)
		}
		return nil
	}
	table := func() error {
		if got.Table != w.Table {
			return fmt.Errorf("want table %s, got %s", clip(w.Table), clip(got.Table))
		}
		if got.DataModel != 2 {
			return fmt.Errorf("data model is %d, not TABLE", got.DataModel)
		}
		return nil
	}
	switch w.Type {
	case wire.StmtExecute:
		switch {
		case w.Capture > 0:
			name, ok := Captured(got.Stmt)
			if !ok {
				return fmt.Errorf("want a capture of LAST_INSERT_ID(), got %v", got)
			}
			for i, n := range env.Vars {
				if n == name {
					return fmt.Errorf("inserted rows #%d and #%d share the variable %q", i, w.Capture-1, name)
				}
			}
			env.Vars[w.Capture-1] = name
		case w.SQL != "":
			if NormSQL(got.Stmt) != w.SQL {
				return fmt.Errorf("want %q, got %v", w.SQL, got)
			}
		case got.Stmt != w.Stmt:
			return fmt.Errorf("want statement %s, got %s", clip(w.Stmt), clip(got.Stmt))
		}
		return matchArgs()
	case wire.Prepare:
		if got.ID != w.ID || got.Stmt != w.Stmt {
			return fmt.Errorf("want Prepare(%d, %s), got %v", w.ID, clip(w.Stmt), got)
		}
	case wire.Execute:
		if got.ID != w.ID {
			return fmt.Errorf("want Execute(%d), got %v", w.ID, got)
		}
		return matchArgs()
	case wire.Deallocate:
		if got.ID != w.ID {
			return fmt.Errorf("want Deallocate(%d), got %v", w.ID, got)
		}
	case wire.CrudInsert:
		if err := table(); err != nil {
			return err
		}
		if len(got.Columns) != len(w.Columns) {
			return fmt.Errorf("want %d columns, got %d", len(w.Columns), len(got.Columns))
		}
		for i := range w.Columns {
			if got.Columns[i] != w.Columns[i] {
				return fmt.Errorf("column %d: want %s, got %s", i, clip(w.Columns[i]), clip(got.Columns[i]))
			}
		}
		if len(got.Rows) != len(w.Rows) {
			return fmt.Errorf("want %d rows, got %d", len(w.Rows), len(got.Rows))
		}
		for i, r := range w.Rows {
			if len(got.Rows[i]) != len(r) {
				return fmt.Errorf("row %d: want %d values, got %d", i, len(r), len(got.Rows[i]))
			}
			for j := range r {
				if err := r[j].W.Match(got.Rows[i][j], env); err != nil {
					return fmt.Errorf("row %d value %d: %w", i, j, err)
				}
			}
		}
	case wire.CrudUpdate:
		if err := first(table(), matchCriteria()); err != nil {
			return err
		}
		if len(got.Sets) != len(w.Sets) {
			return fmt.Errorf("want %d assignments, got %d", len(w.Sets), len(got.Sets))
		}
		for i, g := range got.Sets {
			k := i
			if w.AnyOrder {
				k = -1
				for j := range w.Sets {
					if w.Sets[j].Column == g.Column {
						k = j
					}
				}
			}
			if k < 0 || w.Sets[k].Column != g.Column {
				return fmt.Errorf("assignment %d: unexpected column %s", i, clip(g.Column))
			}
			if g.Op != 1 || g.Value == nil {
				return fmt.Errorf("assignment %d: operation %d, has value %v", i, g.Op, g.Value != nil)
			}
			if err := w.Sets[k].V.W.Match(*g.Value, env); err != nil {
				return fmt.Errorf("assignment %d: %w", i, err)
			}
		}
		if w.AnyOrder {
			seen := map[string]bool{}
			for _, g := range got.Sets {
				if seen[g.Column] {
					return fmt.Errorf("column %s assigned twice", clip(g.Column))
				}
				seen[g.Column] = true
			}
		}
	case wire.CrudDelete:
		return first(table(), matchCriteria())
	case wire.ExpectOpen:
		if got.Ctx != w.Ctx {
			return fmt.Errorf("want expectation context %d, got %d", w.Ctx, got.Ctx)
		}
		// "no error" is on, by an absent or a true value.
		if len(got.Conds) != 1 || got.Conds[0].Key != 1 || got.Conds[0].Op != 0 || (got.Conds[0].Value != "1" && got.Conds[0].Value != "") {
			return fmt.Errorf("want the no-error expectation, got %v", got.Conds)
		}
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// Recorder is a Sender that records the units it is given.
type Recorder struct {
	Units [][]byte
	R     []netx.Response
	Err   error
}

// Send records a copy of b.
func (r *Recorder) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	r.Units = append(r.Units, append([]byte{}, b...))
	return r.R, r.Err
}

// FirstFaults returns the faults of ops one of which must be reported: the first in call
// order (several when the order is the map's). Nil: the unit can be encoded.
func FirstFaults(ops []*Op) []*Fault {
	exs := func(l []Ex) *Fault {
		for _, e := range l {
			if e.Bad != nil {
				return e.Bad
			}
		}
		return nil
	}
	for _, o := range ops {
		if o.Criteria != nil && o.Criteria.Bad != nil {
			return []*Fault{o.Criteria.Bad}
		}
		if o.Kind == KTx && o.Iso > 5 {
			return []*Fault{{What: "unknown isolation level"}}
		}
		for _, a := range o.Args {
			if a.Bad != nil {
				return []*Fault{a.Bad}
			}
		}
		for _, r := range o.Rows {
			if o.Kind == KInsert && len(r) != len(o.Columns) {
				return []*Fault{{What: "row of the wrong length"}}
			}
			if f := exs(r); f != nil {
				return []*Fault{f}
			}
		}
		var sets []*Fault
		for _, s := range o.Sets {
			if s.V.Bad != nil {
				sets = append(sets, s.V.Bad)
			}
		}
		if len(sets) > 0 {
			if o.Kind == KUpdateF {
				sets = sets[:1]
			}
			return sets
		}
		if f := FirstFaults(o.Body); f != nil {
			return f
		}
		if o.CallbackErr != nil {
			return []*Fault{{Cause: o.CallbackErr, What: "callback error"}}
		}
	}
	return nil
}
