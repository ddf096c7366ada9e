package fake

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"

	"google.golang.org/protobuf/encoding/protowire"

	"xtverif/gen"
	"xtverif/wire"
)

// Answer is the terminal answer of one client message, with what precedes it.
type Answer struct {
	Typ    byte // client message type
	Before [][]byte
	Last   []byte // the terminal message
	Err    *SrvErr
}

// SrvErr is an error answer.
type SrvErr struct {
	Fatal bool
	NoSev bool
	Code  uint32
	State string
	Msg   string
	Order int  // of the fields
	Extra bool // unknown fields
}

func (e *SrvErr) String() string {
	return fmt.Sprintf("error{fatal %v, code %d, state %q, %d bytes of text}", e.Fatal, e.Code, e.State, len(e.Msg))
}

// Frame encodes it.
func (e *SrvErr) Frame() []byte {
	sev := 0
	if e.Fatal {
		sev = 1
	} else if e.NoSev {
		sev = -1
	}
	return wire.Message(wire.SError, wire.ErrorPayload(sev, e.Code, e.State, e.Msg, e.Order, e.Extra))
}

// Bytes is the part of the stream.
func (a *Answer) Bytes() []byte {
	return append(bytes.Join(a.Before, nil), a.Last...)
}

func (a *Answer) String() string {
	s := fmt.Sprintf("type %d: %d messages before", a.Typ, len(a.Before))
	if a.Err != nil {
		return s + ", " + a.Err.String()
	}
	return s + fmt.Sprintf(", ok (%d bytes)", len(a.Last))
}

// Match reports whether the response is the one for the answer.
func (a *Answer) Match(r netx.Response) error {
	if a.Err == nil {
		if r != nil {
			return fmt.Errorf("response %T %v to a message the server accepted", r, r)
		}
		return nil
	}
	if r == nil {
		return fmt.Errorf("no error response although the server answered %v", a.Err)
	}
	return a.Err.Match(r)
}

// Match reports whether x is (or wraps) the error e.
func (e *SrvErr) Match(x interface{}) error {
	err, ok := x.(error)
	if !ok {
		return fmt.Errorf("response %T is not an error, the server answered %v", x, e)
	}
	var m *connection.MySqlXError
	if !errors.As(err, &m) {
		return fmt.Errorf("error %v does not carry the server's error %v", err, e)
	}
	if m.Code != e.Code || m.SqlState != e.State || m.Msg != e.Msg || m.IsFatal() != e.Fatal {
		return fmt.Errorf("error is fatal %v, code %d, state %q, %d bytes of text, want %v", m.IsFatal(), m.Code, m.SqlState, len(m.Msg), e)
	}
	return nil
}

// Terminal is the type of the message that accepts a client message.
func Terminal(typ byte) byte {
	switch typ {
	case wire.StmtExecute, wire.CrudInsert, wire.CrudUpdate, wire.CrudDelete, wire.Execute:
		return wire.SStmtExecuteOk
	case wire.AuthenticateStart, wire.AuthenticateContinue:
		return wire.SAuthenticateOk
	}
	return wire.SOk
}

// Size draws a payload size, biased to the reader's buffer size and its multiples.
func Size(g *gen.G, big bool, label string) int {
	switch k := g.Int(0, 19, label+".k"); {
	case k < 11 || !big:
		return g.Int(0, 24, label)
	case k < 13:
		return g.Int(100, 300, label)
	case k < 18:
		return 4096*g.Int(1, 2, label+".m") + g.Int(-24, 12, label)
	}
	return g.Int(0, 30000, label)
}

// SrvErr draws an error answer.
func NewErr(g *gen.G, fatal, big bool, label string) *SrvErr {
	e := &SrvErr{Fatal: fatal, NoSev: g.Int(0, 3, label+".sev") == 3 && !fatal}
	e.Code = uint32(g.Uint64(32, label+".code"))
	if g.Chance(50, label+".usual") {
		e.Code = []uint32{1045, 1064, 1062, 1146, 5000, 5001, 5159, 5160, 3150}[g.Pick(9, label+".ucode")]
		if g.Chance(50, label+".others") {
			e.Code = codes[g.Pick(len(codes), label+".ocode")]
		}
	}
	e.State = []string{"HY000", "42000", "", "23000", "28000", "00000", "XA100", "a longer state", "\u00e9"}[g.Pick(9, label+".state")]
	n := Size(g, big, label+".msg")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+n)%26)
	}
	if n > 3 && g.Chance(20, label+".utf8") {
		odd := []string{"\u20ac", "%s", "\x00\x00", "\n\t", "  ", "\"'", "\r\n", "\n\n", ".", "(", ": "}[g.Pick(11, label+".odd")]
		at := []int{0, n - len(odd), (n - len(odd)) / 2}[g.Pick(3, label+".at")]
		copy(b[at:], odd)
	}
	e.Msg = string(b)
	if g.Chance(25, label+".order") {
		e.Order = g.Int(1, 23, label+".norder")
		e.Extra = g.Chance(40, label+".extra")
	}
	return e
}

var intermediate = []byte{wire.SNotice, wire.SColumnMetaData, wire.SRow, wire.SFetchDone, wire.SFetchSuspended, wire.SMoreResultsets, wire.SMoreOutParams}

// Between draws a message that is not an answer.
func Between(g *gen.G, typ byte, big bool, label string) []byte {
	k := byte(wire.SNotice)
	if Terminal(typ) == wire.SStmtExecuteOk {
		k = intermediate[g.Pick(len(intermediate), label+".kind")]
	}
	g.Seen[fmt.Sprintf("server message %d", k)] = true
	return Intermediate(g, k, big, label)
}

// Intermediate draws a message of type k.
func Intermediate(g *gen.G, k byte, big bool, label string) []byte {
	data := func() []byte {
		n := Size(g, big, label+".size")
		b := gen.Pattern(n, byte(g.Int(0, 255, label+".a")), byte(g.Int(0, 255, label+".s")))
		if g.Chance(40, label+".trap") { // looks like answers
			trap := append(wire.Message(wire.SStmtExecuteOk, nil), wire.Message(wire.SOk, nil)...)
			trap = append(trap, (&SrvErr{Fatal: true, Code: 1, State: "HY000", Msg: "trap"}).Frame()...)
			copy(b, trap)
		}
		return b
	}
	switch k {
	case wire.SNotice:
		return wire.Message(k, wire.NoticePayload(uint32(g.Int(1, 5, label+".nt")), g.Int(1, 2, label+".scope"), data()))
	case wire.SColumnMetaData:
		b := wire.ColumnMetaPayload(string(data()), uint(g.Int(0, 2047, label+".cf")), []int{1, 2, 5, 6, 7, 10, 12, 15, 16, 17, 18}[g.Pick(11, label+".ck")])
		return wire.Message(k, b)
	case wire.SRow:
		var b []byte
		for i, n := 0, g.Int(0, 3, label+".fields"); i < n; i++ {
			b = append(b, wire.RowPayload(data())...)
		}
		return wire.Message(k, b)
	}
	return wire.Message(k, nil)
}

// NewAnswer draws the answer of one client message: accepted or refused.
func NewAnswer(g *gen.G, typ byte, refuse, big bool, label string) *Answer {
	a := &Answer{Typ: typ}
	n := 0
	if g.Chance(60, label+".more") {
		n = g.Int(1, 6, label+".n")
		if g.Chance(3, label+".many") {
			n = g.Int(50, 400, label+".nmany")
		}
	}
	for i := 0; i < n; i++ {
		a.Before = append(a.Before, Between(g, typ, big, label))
	}
	if refuse {
		a.Err = NewErr(g, false, big, label+".err")
		a.Last = a.Err.Frame()
		return a
	}
	t := Terminal(typ)
	var p []byte
	if t == wire.SOk && g.Chance(40, label+".okmsg") {
		p = wire.OkPayload(string(gen.Pattern(1+Size(g, big, label+".ok"), 'a', 0)))
	}
	if t == wire.SAuthenticateOk && g.Chance(40, label+".okmsg") {
		p = wire.AuthPayload(gen.Pattern(Size(g, big, label+".ok"), 'a', 1))
	}
	a.Last = wire.Message(t, p)
	return a
}

// Chunker draws how the stream is split.
func Chunker(g *gen.G, label string) (func(int) int, string) {
	switch g.Int(0, 5, label+".chunk") {
	case 0:
		return nil, "whole"
	case 1:
		return func(int) int { return 1 }, "bytewise"
	case 2:
		k := g.Int(2, 9, label+".every")
		return func(int) int { return k }, "small pieces"
	case 3:
		k := g.Int(4080, 4110, label+".every")
		return func(int) int { return k }, "pieces near the buffer size"
	}
	var l []int
	for i, n := 0, g.Int(1, 12, label+".np"); i < n; i++ {
		l = append(l, g.Int(1, 60, label+".p"))
	}
	if g.Chance(30, label+".bigp") {
		l = append(l, g.Int(1000, 5000, label+".bp"))
	}
	i := 0
	return func(int) int { i++; return l[i%len(l)] }, "uneven pieces"
}

// ClientMsg frames a client message of type typ with an arbitrary body.
func ClientMsg(g *gen.G, typ byte, label string) []byte {
	n := g.Int(0, 12, label+".len")
	if g.Chance(10, label+".long") {
		n = g.Int(100, 9000, label+".len")
		if g.Chance(4, label+".longer") {
			n = g.Int(65400, 70000, label+".longest")
		}
	}
	return wire.Message(typ, gen.Pattern(n, byte(g.Int(0, 255, label+".a")), byte(g.Int(0, 255, label+".s"))))
}

// UnitTypes are the messages a unit of work consists of.
var UnitTypes = []byte{wire.StmtExecute, wire.CrudInsert, wire.CrudUpdate, wire.CrudDelete, wire.Execute, wire.Prepare, wire.Deallocate, wire.ExpectOpen, wire.ExpectClose, wire.SessReset}

// Answered counts the complete answers at the start of stream, stopping at what ends a unit.
// fatal: the stream holds a fatal error (or an error that ends the unit) at that point.
func Answered(stream []byte, types []byte) (n int, ended bool) {
	for n < len(types) {
		if len(stream) < 5 {
			return n, true
		}
		l := binary.LittleEndian.Uint32(stream)
		if l < 1 || uint64(len(stream)) < 4+uint64(l) {
			return n, true
		}
		typ, p := stream[4], stream[5:4+l]
		stream = stream[4+l:]
		switch typ {
		case wire.SOk, wire.SStmtExecuteOk, wire.SAuthenticateOk:
			n++
		case wire.SError:
			e, ok := parseErr(p)
			ct := types[n]
			if ok && e.Fatal || ct == wire.SessReset || ct == wire.AuthenticateStart || ct == wire.AuthenticateContinue {
				return n, true
			}
			n++
		case wire.SAuthenticateContinue:
			return n, true
		}
	}
	return n, false
}

// parseErr parses an error; ok is false when it is not well-formed.
func parseErr(p []byte) (e SrvErr, ok bool) {
	for len(p) > 0 {
		num, typ, n := protowire.ConsumeTag(p)
		if n < 0 {
			return e, false
		}
		p = p[n:]
		if typ == protowire.VarintType {
			v, n := protowire.ConsumeVarint(p)
			if n < 0 {
				return e, false
			}
			switch num {
			case 1:
				e.Fatal = v == 1
			case 2:
				e.Code = uint32(v)
			}
			p = p[n:]
			continue
		}
		if n = protowire.ConsumeFieldValue(num, typ, p); n < 0 {
			return e, false
		}
		p = p[n:]
	}
	return e, true
}
