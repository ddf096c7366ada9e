package c08

import (
	"context"
	"fmt"
	"testing"

	"github.com/renthraysk/xtorm/netx/connection"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// sized returns the message f makes whose whole payload has exactly n bytes, or nil if
// there is none.
func sized(n int, f func(d []byte) []byte) []byte {
	for m := n; m >= 0 && m > n-64; m-- {
		if b := f(gen.Pattern(m, 'a', 0)); len(b) == n+5 {
			return b
		}
	}
	return nil
}

// Server messages whose payload has a size around each power of two.
func TestPowers(t *testing.T) {
	hx.Rule(t, "a row, notice, column description, error or acceptance whose payload has exactly 2^k-6..2^k+2 bytes, k = 7..18 (to 20 in the thorough tier), between a refused and an accepted statement, read whole or in pieces; exhaustive; non-trivial: all")
	hx.Exhaustive(t)
	top := uint(18)
	if hx.Thorough() {
		top = 20
	}
	for k := uint(7); k <= top; k++ {
		for d := -6; d <= 2; d++ {
			for kind := 0; kind < 5; kind++ {
				for _, chunk := range []int{0, 1 << 12, 1000} {
					size := 1<<k + d
					a := &fake.Answer{Typ: wire.StmtExecute}
					m := sized(size, func(d []byte) []byte {
						switch kind {
						case 0:
							return wire.Message(wire.SRow, wire.RowPayload(d))
						case 1:
							return wire.Message(wire.SNotice, wire.NoticePayload(1, 2, d))
						case 2:
							return wire.Message(wire.SColumnMetaData, wire.ColumnMetaPayload(string(d), 0, 7))
						case 3:
							a.Err = &fake.SrvErr{Code: 1, State: "HY000", Msg: string(d)}
							return a.Err.Frame()
						}
						return wire.Message(wire.SOk, wire.OkPayload(string(d)))
					})
					if m == nil {
						continue // no such payload: a length that grows by two at once
					}
					hx.Each(t, func(c *hx.Case) {
						msg := wire.Message(wire.StmtExecute, []byte("yy"))
						switch kind {
						case 0, 1, 2:
							a.Before = [][]byte{m}
							a.Last = wire.Message(wire.SStmtExecuteOk, nil)
						case 3:
							a.Last = m
						case 4:
							a.Typ, msg[4] = wire.Prepare, wire.Prepare
							a.Last = m
						}
						refused := &fake.Answer{Typ: wire.StmtExecute, Err: &fake.SrvErr{Code: 1064, State: "42000", Msg: "first"}}
						refused.Last = refused.Err.Frame()
						last := &fake.Answer{Typ: wire.StmtExecute, Last: wire.Message(wire.SStmtExecuteOk, nil)}
						unit := append(wire.Message(wire.StmtExecute, nil), msg...)
						unit = append(unit, wire.Message(wire.StmtExecute, []byte{1})...)
						fc := &fake.Conn{In: append(append(refused.Bytes(), a.Bytes()...), last.Bytes()...)}
						if chunk > 0 {
							fc.Chunk = func(int) int { return chunk }
						}
						key := fmt.Sprintf("kind %d, payload of %d bytes, pieces of %d", kind, size, chunk)
						c.NonTrivial(key)
						c.Sample(func() string { return key })
						r, err := connection.New(fc).Send(context.Background(), unit)
						if err != nil || fc.Starved || len(r) != 3 || len(fc.In) != 0 {
							t.Fatalf("%s: %d responses, err %v, starved %v, %d bytes not consumed", key, len(r), err, fc.Starved, len(fc.In))
						}
						for i, x := range []*fake.Answer{refused, a, last} {
							if err := x.Match(r[i]); err != nil {
								t.Fatalf("%s: message %d: %v", key, i, err)
							}
						}
					})
				}
			}
		}
	}
}

// Answers of very many messages.
func TestCounts(t *testing.T) {
	hx.Rule(t, "an answer of 2^k-1..2^k+1 rows, notices or column descriptions, k = 8..17 (to 20 in the thorough tier), and those numbers of them in alternation, between a refused and an accepted statement; exhaustive; non-trivial: all")
	hx.Exhaustive(t)
	top := uint(17)
	if hx.Thorough() {
		top = 20
	}
	kinds := [][]byte{
		wire.Message(wire.SRow, wire.RowPayload([]byte{2})),
		wire.Message(wire.SNotice, wire.NoticePayload(1, 2, nil)),
		wire.Message(wire.SColumnMetaData, wire.ColumnMetaPayload("a", 0, 7)),
	}
	for k := uint(8); k <= top; k++ {
		for d := -1; d <= 1; d++ {
			for kind := 0; kind <= len(kinds); kind++ {
				n := 1<<k + d
				hx.Each(t, func(c *hx.Case) {
					refused := &fake.Answer{Typ: wire.StmtExecute, Err: &fake.SrvErr{Code: 1064, State: "42000", Msg: "first"}}
					refused.Last = refused.Err.Frame()
					a := &fake.Answer{Typ: wire.StmtExecute, Last: wire.Message(wire.SStmtExecuteOk, nil)}
					last := &fake.Answer{Typ: wire.StmtExecute, Err: &fake.SrvErr{Code: 1146, State: "42S02", Msg: "last"}}
					last.Last = last.Err.Frame()
					for i := 0; i < n; i++ {
						m := kinds[i%len(kinds)]
						if kind < len(kinds) {
							m = kinds[kind]
						}
						a.Before = append(a.Before, m)
					}
					unit := append(wire.Message(wire.StmtExecute, nil), wire.Message(wire.StmtExecute, []byte("yy"))...)
					unit = append(unit, wire.Message(wire.StmtExecute, []byte{1})...)
					fc := &fake.Conn{In: append(append(refused.Bytes(), a.Bytes()...), last.Bytes()...)}
					key := fmt.Sprintf("kind %d, %d messages", kind, n)
					c.NonTrivial(key)
					c.Sample(func() string { return key })
					r, err := connection.New(fc).Send(context.Background(), unit)
					if err != nil || fc.Starved || len(r) != 3 || len(fc.In) != 0 {
						t.Fatalf("%s: %d responses, err %v, starved %v, %d bytes not consumed", key, len(r), err, fc.Starved, len(fc.In))
					}
					for i, x := range []*fake.Answer{refused, a, last} {
						if err := x.Match(r[i]); err != nil {
							t.Fatalf("%s: message %d: %v", key, i, err)
						}
					}
				})
			}
		}
	}
}
