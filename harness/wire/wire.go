// Package wire is an independent decoder of X Protocol client messages: field and enum
// numbers are transcribed from the protocol definition, nothing is taken from the code
// under test. It decodes to plain values that can be compared with ==/DeepEqual, is
// strict about framing, wire types, required fields and unknown fields, and lenient about
// field order and about optional fields that hold their default.
package wire

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
)

// Client message types.
const (
	CapabilitiesGet      = 1
	CapabilitiesSet      = 2
	ConClose             = 3
	AuthenticateStart    = 4
	AuthenticateContinue = 5
	SessReset            = 6
	SessClose            = 7
	StmtExecute          = 12
	CrudInsert           = 18
	CrudUpdate           = 19
	CrudDelete           = 20
	ExpectOpen           = 24
	ExpectClose          = 25
	Prepare              = 40
	Execute              = 41
	Deallocate           = 42
)

// Server message types.
const (
	SOk                   = 0
	SError                = 1
	SCapabilities         = 2
	SAuthenticateContinue = 3
	SAuthenticateOk       = 4
	SNotice               = 11
	SColumnMetaData       = 12
	SRow                  = 13
	SFetchDone            = 14
	SFetchSuspended       = 15
	SMoreResultsets       = 16
	SStmtExecuteOk        = 17
	SMoreOutParams        = 18
	SCompression          = 19
)

// Scalar types.
const (
	Sint   = 1
	Uint   = 2
	Null   = 3
	Octets = 4
	Double = 5
	Float  = 6
	Bool   = 7
	String = 8
)

// Scalar is a decoded Mysqlx.Datatypes.Scalar. Floats are kept as bits.
type Scalar struct {
	Type      int
	Int       int64
	Uint      uint64 // unsigned value, float bits, or bool
	Data      string // octets or string
	Collation uint64
	Content   uint32
}

func short(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (s Scalar) String() string {
	switch s.Type {
	case Sint:
		return fmt.Sprintf("sint %d", s.Int)
	case Uint:
		return fmt.Sprintf("uint %d", s.Uint)
	case Null:
		return "NULL"
	case Octets:
		return fmt.Sprintf("octets(ct=%d) %s", s.Content, short(s.Data))
	case Double:
		return fmt.Sprintf("double %x (%v)", s.Uint, math.Float64frombits(s.Uint))
	case Float:
		return fmt.Sprintf("float %x (%v)", s.Uint, math.Float32frombits(uint32(s.Uint)))
	case Bool:
		return fmt.Sprintf("bool %d", s.Uint)
	case String:
		return fmt.Sprintf("string(coll=%d) %s", s.Collation, short(s.Data))
	}
	return fmt.Sprintf("scalar type %d", s.Type)
}

// Expr kinds.
const (
	Ident       = 1
	Literal     = 2
	Variable    = 3
	FuncCall    = 4
	Operator    = 5
	Placeholder = 6
)

// Expr is a decoded Mysqlx.Expr.Expr.
type Expr struct {
	Kind   int
	Name   string // identifier, variable, function or operator
	Lit    Scalar
	Pos    uint32
	Params []Expr
}

func (e Expr) String() string {
	switch e.Kind {
	case Ident:
		return "`" + short(e.Name) + "`"
	case Literal:
		return e.Lit.String()
	case Variable:
		return "var(" + short(e.Name) + ")"
	case Placeholder:
		return fmt.Sprintf("?%d", e.Pos)
	case FuncCall, Operator:
		var sb strings.Builder
		if e.Kind == Operator {
			sb.WriteString("op ")
		} else {
			sb.WriteString("func ")
		}
		sb.WriteString(short(e.Name))
		sb.WriteByte('(')
		for i, p := range e.Params {
			if i > 0 {
				sb.WriteString(", ")
			}
			if i >= 8 {
				fmt.Fprintf(&sb, "... %d params", len(e.Params))
				break
			}
			sb.WriteString(p.String())
		}
		sb.WriteByte(')')
		return sb.String()
	}
	return fmt.Sprintf("expr kind %d", e.Kind)
}

// Set is one assignment of an update.
type Set struct {
	Column string
	Op     int
	Value  *Expr
}

// Cond is one condition of an expectation block.
type Cond struct {
	Key   uint32
	Value string
	Op    int
}

// Cap is one capability to set.
type Cap struct {
	Name  string
	Value Scalar
}

// Msg is a decoded client message; which fields are meaningful depends on Type.
type Msg struct {
	Type      int
	Stmt      string // StmtExecute, Prepare
	ID        uint32 // Prepare, Execute, Deallocate
	Args      []Scalar
	Table     string
	DataModel int
	Columns   []string
	Rows      [][]Expr
	Criteria  *Expr
	Sets      []Set
	Ctx       int // ExpectOpen
	Conds     []Cond
	KeepOpen  bool
	Mech      string
	AuthData  string
	HasAuth   bool
	Caps      []Cap
}

func (m Msg) String() string {
	var sb strings.Builder
	switch m.Type {
	case StmtExecute:
		fmt.Fprintf(&sb, "StmtExecute(%s, %v)", short(m.Stmt), m.Args)
	case Prepare:
		fmt.Fprintf(&sb, "Prepare(%d, %s)", m.ID, short(m.Stmt))
	case Execute:
		fmt.Fprintf(&sb, "Execute(%d, %v)", m.ID, m.Args)
	case Deallocate:
		fmt.Fprintf(&sb, "Deallocate(%d)", m.ID)
	case CrudInsert:
		fmt.Fprintf(&sb, "Insert(%s model=%d cols=[", short(m.Table), m.DataModel)
		for _, c := range m.Columns {
			sb.WriteString(short(c) + " ")
		}
		fmt.Fprintf(&sb, "] rows=%v)", m.Rows)
	case CrudUpdate:
		fmt.Fprintf(&sb, "Update(%s model=%d where=%v set=[", short(m.Table), m.DataModel, m.Criteria)
		for _, s := range m.Sets {
			fmt.Fprintf(&sb, "%s op%d %v; ", short(s.Column), s.Op, s.Value)
		}
		sb.WriteString("])")
	case CrudDelete:
		fmt.Fprintf(&sb, "Delete(%s model=%d where=%v)", short(m.Table), m.DataModel, m.Criteria)
	case ExpectOpen:
		fmt.Fprintf(&sb, "ExpectOpen(ctx=%d %v)", m.Ctx, m.Conds)
	case ExpectClose:
		sb.WriteString("ExpectClose")
	case SessReset:
		fmt.Fprintf(&sb, "Reset(keep=%v)", m.KeepOpen)
	case AuthenticateStart:
		fmt.Fprintf(&sb, "AuthStart(%s, %s)", m.Mech, short(m.AuthData))
	case AuthenticateContinue:
		fmt.Fprintf(&sb, "AuthContinue(%s)", short(m.AuthData))
	case CapabilitiesSet:
		fmt.Fprintf(&sb, "CapSet(%v)", m.Caps)
	default:
		fmt.Fprintf(&sb, "message type %d", m.Type)
	}
	return sb.String()
}

// Frames splits b into its frames; the whole of b must be used up.
type Frame struct {
	Type    int
	Payload []byte
}

func Frames(b []byte) ([]Frame, error) {
	var r []Frame
	for off := 0; off < len(b); {
		if len(b)-off < 5 {
			return r, fmt.Errorf("frame %d at offset %d: %d stray bytes", len(r), off, len(b)-off)
		}
		n := int64(binary.LittleEndian.Uint32(b[off:]))
		if n < 1 || int64(off)+4+n > int64(len(b)) {
			return r, fmt.Errorf("frame %d at offset %d (type %d): length %d, but %d bytes remain", len(r), off, b[off+4], n, len(b)-off-4)
		}
		r = append(r, Frame{int(b[off+4]), b[off+5 : off+4+int(n)]})
		off += 4 + int(n)
	}
	return r, nil
}

// DecodeUnit decodes a concatenation of framed client messages.
func DecodeUnit(b []byte) ([]Msg, error) {
	fs, err := Frames(b)
	if err != nil {
		return nil, err
	}
	r := make([]Msg, 0, len(fs))
	for i, f := range fs {
		m, err := Decode(f)
		if err != nil {
			return r, fmt.Errorf("message %d (type %d, %d bytes): %w", i, f.Type, len(f.Payload), err)
		}
		r = append(r, m)
	}
	return r, nil
}

type field struct {
	num protowire.Number
	typ protowire.Type
	v   uint64
	b   []byte
}

// fields parses b; singular maps field numbers that may occur at most once.
func fields(b []byte, each func(f field) error, repeated ...protowire.Number) error {
	var seen [32]bool
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return fmt.Errorf("bad tag: %w", protowire.ParseError(n))
		}
		b = b[n:]
		f := field{num: num, typ: typ}
		switch typ {
		case protowire.VarintType:
			f.v, n = protowire.ConsumeVarint(b)
		case protowire.BytesType:
			f.b, n = protowire.ConsumeBytes(b)
		case protowire.Fixed64Type:
			f.v, n = protowire.ConsumeFixed64(b)
		case protowire.Fixed32Type:
			var x uint32
			x, n = protowire.ConsumeFixed32(b)
			f.v = uint64(x)
		default:
			return fmt.Errorf("field %d: wire type %d", num, typ)
		}
		if n < 0 {
			return fmt.Errorf("field %d: %w", num, protowire.ParseError(n))
		}
		b = b[n:]
		if num < 32 {
			rep := false
			for _, r := range repeated {
				rep = rep || r == num
			}
			if seen[num] && !rep {
				return fmt.Errorf("field %d occurs more than once", num)
			}
			seen[num] = true
		}
		if err := each(f); err != nil {
			return err
		}
	}
	return nil
}

func (f field) want(t protowire.Type) error {
	if f.typ != t {
		return fmt.Errorf("field %d: wire type %d, want %d", f.num, f.typ, t)
	}
	return nil
}

func (f field) unknown() error { return fmt.Errorf("unexpected field %d", f.num) }

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func u32(f field) (uint32, error) {
	if err := f.want(protowire.VarintType); err != nil {
		return 0, err
	}
	if f.v > math.MaxUint32 {
		return 0, fmt.Errorf("field %d: %d exceeds 32 bits", f.num, f.v)
	}
	return uint32(f.v), nil
}

// DecodeScalar decodes a Scalar message.
func DecodeScalar(b []byte) (s Scalar, err error) {
	have := 0
	err = fields(b, func(f field) error {
		var err error
		switch f.num {
		case 1:
			err = f.want(protowire.VarintType)
			s.Type = int(f.v)
		case 2:
			err = f.want(protowire.VarintType)
			s.Int = protowire.DecodeZigZag(f.v)
			have = Sint
		case 3:
			err = f.want(protowire.VarintType)
			s.Uint = f.v
			have = Uint
		case 5:
			have = Octets
			ok := false
			err = first(f.want(protowire.BytesType), fields(f.b, func(f field) error {
				switch f.num {
				case 1:
					s.Data = string(f.b)
					ok = true
					return f.want(protowire.BytesType)
				case 2:
					var err error
					s.Content, err = u32(f)
					return err
				}
				return f.unknown()
			}))
			if err == nil && !ok {
				err = fmt.Errorf("octets without value")
			}
		case 6:
			err = f.want(protowire.Fixed64Type)
			s.Uint = f.v
			have = Double
		case 7:
			err = f.want(protowire.Fixed32Type)
			s.Uint = f.v
			have = Float
		case 8:
			err = f.want(protowire.VarintType)
			if f.v != 0 {
				s.Uint = 1
			}
			have = Bool
		case 9:
			have = String
			ok := false
			err = first(f.want(protowire.BytesType), fields(f.b, func(f field) error {
				switch f.num {
				case 1:
					s.Data = string(f.b)
					ok = true
					return f.want(protowire.BytesType)
				case 2:
					s.Collation = f.v
					return f.want(protowire.VarintType)
				}
				return f.unknown()
			}))
			if err == nil && !ok {
				err = fmt.Errorf("string without value")
			}
		default:
			err = f.unknown()
		}
		return err
	})
	if err != nil {
		return s, fmt.Errorf("scalar: %w", err)
	}
	if s.Type == Null && have == 0 {
		return s, nil
	}
	if s.Type != have {
		return s, fmt.Errorf("scalar of type %d holds a value of type %d", s.Type, have)
	}
	return s, nil
}

// DecodeAny decodes an Any message, which must be a scalar.
func DecodeAny(b []byte) (s Scalar, err error) {
	typ, ok := uint64(0), false
	err = fields(b, func(f field) error {
		switch f.num {
		case 1:
			typ = f.v
			return f.want(protowire.VarintType)
		case 2:
			ok = true
			if err := f.want(protowire.BytesType); err != nil {
				return err
			}
			var err error
			s, err = DecodeScalar(f.b)
			return err
		}
		return f.unknown()
	})
	if err != nil {
		return s, fmt.Errorf("any: %w", err)
	}
	if typ != 1 || !ok {
		return s, fmt.Errorf("any of type %d, has scalar %v", typ, ok)
	}
	return s, nil
}

func str(b []byte, num protowire.Number) (s string, err error) {
	ok := false
	err = fields(b, func(f field) error {
		if f.num != num {
			return f.unknown()
		}
		s, ok = string(f.b), true
		return f.want(protowire.BytesType)
	})
	if err == nil && !ok {
		err = fmt.Errorf("missing name")
	}
	return
}

const maxDepth = 5000

// DecodeExpr decodes an Expr message.
func DecodeExpr(b []byte) (Expr, error) { return decodeExpr(b, 0) }

func decodeExpr(b []byte, depth int) (e Expr, err error) {
	if depth > maxDepth {
		return e, fmt.Errorf("expression nested too deep")
	}
	have := 0
	call := func(f field, function bool) error {
		if err := f.want(protowire.BytesType); err != nil {
			return err
		}
		named := false
		err := fields(f.b, func(f field) error {
			if err := f.want(protowire.BytesType); err != nil {
				return err
			}
			switch f.num {
			case 1:
				named = true
				if !function {
					e.Name = string(f.b)
					return nil
				}
				var err error
				e.Name, err = str(f.b, 1)
				return err
			case 2:
				p, err := decodeExpr(f.b, depth+1)
				if err != nil {
					return fmt.Errorf("parameter %d: %w", len(e.Params), err)
				}
				e.Params = append(e.Params, p)
				return nil
			}
			return f.unknown()
		}, 2)
		if err == nil && !named {
			err = fmt.Errorf("operator or function without name")
		}
		return err
	}
	err = fields(b, func(f field) error {
		var err error
		switch f.num {
		case 1:
			err = f.want(protowire.VarintType)
			e.Kind = int(f.v)
		case 2:
			have = Ident
			if err = f.want(protowire.BytesType); err == nil {
				e.Name, err = str(f.b, 2)
			}
		case 3:
			have = Variable
			err = f.want(protowire.BytesType)
			e.Name = string(f.b)
		case 4:
			have = Literal
			if err = f.want(protowire.BytesType); err == nil {
				e.Lit, err = DecodeScalar(f.b)
			}
		case 5:
			have = FuncCall
			err = call(f, true)
		case 6:
			have = Operator
			err = call(f, false)
		case 7:
			have = Placeholder
			e.Pos, err = u32(f)
		default:
			err = f.unknown()
		}
		return err
	})
	if err != nil {
		return e, fmt.Errorf("expr: %w", err)
	}
	if e.Kind == Placeholder && have == 0 {
		return e, nil
	}
	if e.Kind != have {
		return e, fmt.Errorf("expr of kind %d holds kind %d", e.Kind, have)
	}
	return e, nil
}

func decodeArgs(m *Msg, f field) error {
	if err := f.want(protowire.BytesType); err != nil {
		return err
	}
	s, err := DecodeAny(f.b)
	if err != nil {
		return fmt.Errorf("argument %d: %w", len(m.Args), err)
	}
	m.Args = append(m.Args, s)
	return nil
}

// stmt decodes the statement of a StmtExecute message.
func stmtExecute(m *Msg, b []byte) error {
	ok := false
	err := fields(b, func(f field) error {
		switch f.num {
		case 1:
			m.Stmt, ok = string(f.b), true
			return f.want(protowire.BytesType)
		case 2:
			return decodeArgs(m, f)
		case 3:
			if string(f.b) != "sql" {
				return fmt.Errorf("namespace %q", f.b)
			}
			return f.want(protowire.BytesType)
		case 4:
			if f.v != 0 {
				return fmt.Errorf("compact metadata requested")
			}
			return f.want(protowire.VarintType)
		}
		return f.unknown()
	}, 2)
	if err == nil && !ok {
		err = fmt.Errorf("no statement")
	}
	return err
}

// Decode decodes one client message.
func Decode(fr Frame) (m Msg, err error) {
	m.Type = fr.Type
	req := map[protowire.Number]bool{}
	need := func(nums ...protowire.Number) {
		for _, n := range nums {
			if err == nil && !req[n] {
				err = fmt.Errorf("required field %d is missing", n)
			}
		}
	}
	collection := func(f field) error {
		if err := f.want(protowire.BytesType); err != nil {
			return err
		}
		var err error
		m.Table, err = str(f.b, 1)
		return err
	}
	criteria := func(f field) error {
		if err := f.want(protowire.BytesType); err != nil {
			return err
		}
		e, err := DecodeExpr(f.b)
		if err != nil {
			return fmt.Errorf("criteria: %w", err)
		}
		m.Criteria = &e
		return nil
	}
	model := func(f field) error {
		m.DataModel = int(f.v)
		return f.want(protowire.VarintType)
	}
	switch fr.Type {
	case StmtExecute:
		err = stmtExecute(&m, fr.Payload)
	case Prepare:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			var err error
			switch f.num {
			case 1:
				m.ID, err = u32(f)
				return err
			case 2:
				if err := f.want(protowire.BytesType); err != nil {
					return err
				}
				typ, ok := uint64(99), false
				err = fields(f.b, func(f field) error {
					switch f.num {
					case 1:
						typ = f.v
						return f.want(protowire.VarintType)
					case 6:
						ok = true
						return first(f.want(protowire.BytesType), stmtExecute(&m, f.b))
					}
					return f.unknown()
				})
				if err == nil && (typ != 5 || !ok) {
					err = fmt.Errorf("prepare of type %d, has statement %v", typ, ok)
				}
				if err == nil && len(m.Args) != 0 {
					err = fmt.Errorf("prepare with arguments")
				}
				return err
			}
			return f.unknown()
		})
		need(1, 2)
	case Execute:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			var err error
			switch f.num {
			case 1:
				m.ID, err = u32(f)
				return err
			case 2:
				return decodeArgs(&m, f)
			case 3:
				if f.v != 0 {
					return fmt.Errorf("compact metadata requested")
				}
				return nil
			}
			return f.unknown()
		}, 2)
		need(1)
	case Deallocate:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			if f.num != 1 {
				return f.unknown()
			}
			var err error
			m.ID, err = u32(f)
			return err
		})
		need(1)
	case CrudInsert:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			switch f.num {
			case 1:
				return collection(f)
			case 2:
				return model(f)
			case 3:
				if err := f.want(protowire.BytesType); err != nil {
					return err
				}
				c, err := str(f.b, 1)
				if err != nil {
					return fmt.Errorf("column %d: %w", len(m.Columns), err)
				}
				m.Columns = append(m.Columns, c)
				return nil
			case 4:
				if err := f.want(protowire.BytesType); err != nil {
					return err
				}
				var row []Expr
				err := fields(f.b, func(f field) error {
					if f.num != 1 {
						return f.unknown()
					}
					if err := f.want(protowire.BytesType); err != nil {
						return err
					}
					e, err := DecodeExpr(f.b)
					if err != nil {
						return fmt.Errorf("field %d: %w", len(row), err)
					}
					row = append(row, e)
					return nil
				}, 1)
				if err != nil {
					return fmt.Errorf("row %d: %w", len(m.Rows), err)
				}
				m.Rows = append(m.Rows, row)
				return nil
			case 6: // upsert
				if f.v != 0 {
					return fmt.Errorf("upsert requested")
				}
				return nil
			}
			return f.unknown()
		}, 3, 4)
		need(1)
	case CrudUpdate:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			switch f.num {
			case 2:
				return collection(f)
			case 3:
				return model(f)
			case 4:
				return criteria(f)
			case 7:
				if err := f.want(protowire.BytesType); err != nil {
					return err
				}
				var s Set
				named := false
				err := fields(f.b, func(f field) error {
					switch f.num {
					case 1:
						named = true
						if err := f.want(protowire.BytesType); err != nil {
							return err
						}
						var err error
						s.Column, err = str(f.b, 2)
						return err
					case 2:
						s.Op = int(f.v)
						return f.want(protowire.VarintType)
					case 3:
						if err := f.want(protowire.BytesType); err != nil {
							return err
						}
						e, err := DecodeExpr(f.b)
						s.Value = &e
						return err
					}
					return f.unknown()
				})
				if err == nil && !named {
					err = fmt.Errorf("no column")
				}
				if err != nil {
					return fmt.Errorf("operation %d: %w", len(m.Sets), err)
				}
				m.Sets = append(m.Sets, s)
				return nil
			}
			return f.unknown()
		}, 7)
		need(2)
	case CrudDelete:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			switch f.num {
			case 1:
				return collection(f)
			case 2:
				return model(f)
			case 3:
				return criteria(f)
			}
			return f.unknown()
		})
		need(1)
	case ExpectOpen:
		err = fields(fr.Payload, func(f field) error {
			switch f.num {
			case 1:
				m.Ctx = int(f.v)
				return f.want(protowire.VarintType)
			case 2:
				if err := f.want(protowire.BytesType); err != nil {
					return err
				}
				var c Cond
				err := fields(f.b, func(f field) error {
					var err error
					switch f.num {
					case 1:
						c.Key, err = u32(f)
						return err
					case 2:
						c.Value = string(f.b)
						return f.want(protowire.BytesType)
					case 3:
						c.Op = int(f.v)
						return f.want(protowire.VarintType)
					}
					return f.unknown()
				})
				if err != nil {
					return fmt.Errorf("condition %d: %w", len(m.Conds), err)
				}
				m.Conds = append(m.Conds, c)
				return nil
			}
			return f.unknown()
		}, 2)
	case ExpectClose:
		err = fields(fr.Payload, func(f field) error { return f.unknown() })
	case SessReset:
		err = fields(fr.Payload, func(f field) error {
			if f.num != 1 {
				return f.unknown()
			}
			m.KeepOpen = f.v != 0
			return f.want(protowire.VarintType)
		})
	case AuthenticateStart:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			switch f.num {
			case 1:
				m.Mech = string(f.b)
			case 2:
				m.AuthData, m.HasAuth = string(f.b), true
			default:
				return f.unknown()
			}
			return f.want(protowire.BytesType)
		})
		need(1)
	case AuthenticateContinue:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			if f.num != 1 {
				return f.unknown()
			}
			m.AuthData, m.HasAuth = string(f.b), true
			return f.want(protowire.BytesType)
		})
		need(1)
	case CapabilitiesSet:
		err = fields(fr.Payload, func(f field) error {
			req[f.num] = true
			if f.num != 1 {
				return f.unknown()
			}
			return first(f.want(protowire.BytesType), fields(f.b, func(f field) error {
				if f.num != 1 {
					return f.unknown()
				}
				var c Cap
				named := false
				err := first(f.want(protowire.BytesType), fields(f.b, func(f field) error {
					var err error
					switch f.num {
					case 1:
						c.Name, named = string(f.b), true
						return f.want(protowire.BytesType)
					case 2:
						c.Value, err = DecodeAny(f.b)
						return first(f.want(protowire.BytesType), err)
					}
					return f.unknown()
				}))
				if err == nil && !named {
					err = fmt.Errorf("capability without name")
				}
				m.Caps = append(m.Caps, c)
				return err
			}, 1))
		})
		need(1)
	default:
		err = fmt.Errorf("not a known client message")
	}
	return m, err
}

// ---- server side encoders ----

// Message frames a server message.
func Message(typ byte, payload []byte) []byte {
	b := make([]byte, 5, 5+len(payload))
	binary.LittleEndian.PutUint32(b, uint32(1+len(payload)))
	b[4] = typ
	return append(b, payload...)
}

// ErrorPayload encodes a Mysqlx.Error; severity < 0 leaves it out. The fields come in the
// order-th of their 24 orders (0: the server's), with a field of a later protocol version
// among them if extra is set.
func ErrorPayload(severity int, code uint32, state, msg string, order int, extra bool) []byte {
	var f [4][]byte
	if severity >= 0 {
		f[0] = protowire.AppendVarint(protowire.AppendTag(nil, 1, protowire.VarintType), uint64(severity))
	}
	f[1] = protowire.AppendVarint(protowire.AppendTag(nil, 2, protowire.VarintType), uint64(code))
	f[2] = protowire.AppendString(protowire.AppendTag(nil, 4, protowire.BytesType), state)
	f[3] = protowire.AppendString(protowire.AppendTag(nil, 3, protowire.BytesType), msg)
	var b []byte
	left := f[:]
	for n := 4; n > 0; n-- {
		k := order % n
		order /= n
		b = append(b, left[k]...)
		left = append(append([][]byte(nil), left[:k]...), left[k+1:]...)
		if extra && n == 3 {
			b = protowire.AppendString(protowire.AppendTag(b, 15, protowire.BytesType), "later version")
			b = protowire.AppendVarint(protowire.AppendTag(b, 2000, protowire.VarintType), 77)
		}
	}
	return b
}

// ColumnMetaPayload encodes a ColumnMetaData with the given name; the bits of fields say which
// of the optional fields are there, kind is the column type.
func ColumnMetaPayload(name string, fields uint, kind int) []byte {
	var b []byte
	b = protowire.AppendTag(b, 1, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(kind))
	if name != "" || fields&1 != 0 {
		b = protowire.AppendTag(b, 2, protowire.BytesType)
		b = protowire.AppendString(b, name)
	}
	for i, s := range []string{"original", "tab", "original_tab", "schema", "def"} { // 3..7
		if fields>>(1+uint(i))&1 != 0 {
			b = protowire.AppendString(protowire.AppendTag(b, protowire.Number(3+i), protowire.BytesType), s)
		}
	}
	for i, v := range []uint64{255, 31, 1<<32 - 1, 0xF0FF, 2} { // 8..12
		if fields>>(6+uint(i))&1 != 0 {
			b = protowire.AppendVarint(protowire.AppendTag(b, protowire.Number(8+i), protowire.VarintType), v)
		}
	}
	return b
}

// RowPayload encodes a Row with one field.
func RowPayload(field []byte) []byte {
	b := protowire.AppendTag(nil, 1, protowire.BytesType)
	return protowire.AppendBytes(b, field)
}

// NoticePayload encodes a notice Frame (type, scope, payload).
func NoticePayload(typ uint32, scope int, payload []byte) []byte {
	b := protowire.AppendTag(nil, 1, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(typ))
	b = protowire.AppendTag(b, 2, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(scope))
	b = protowire.AppendTag(b, 3, protowire.BytesType)
	return protowire.AppendBytes(b, payload)
}

// OkPayload encodes an Ok with an optional message.
func OkPayload(msg string) []byte {
	if msg == "" {
		return nil
	}
	return protowire.AppendString(protowire.AppendTag(nil, 1, protowire.BytesType), msg)
}

// AuthPayload encodes AuthenticateContinue / AuthenticateOk data.
func AuthPayload(data []byte) []byte {
	return protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), data)
}
