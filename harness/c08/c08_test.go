package c08

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// units sends one or more units on one connection. early is how many of the answers to
// later units (notices, in practice) are already there: none or all.
func run(t *rapid.T, fc *fake.Conn, units [][]byte, answers [][]*fake.Answer, streams [][]byte, upFront bool) {
	conn := connection.New(fc)
	if upFront {
		for _, s := range streams {
			fc.In = append(fc.In, s...)
		}
	}
	var got [][]netx.Response
	for u := range units {
		if !upFront {
			fc.In = append(append([]byte(nil), fc.In...), streams[u]...)
		}
		sent := append([]byte(nil), units[u]...)
		r, err := conn.Send(context.Background(), units[u])
		if !bytes.Equal(sent, units[u]) {
			t.Fatalf("unit %d: Send changed the unit", u)
		}
		got = append(got, r)
		if fc.Starved {
			t.Fatalf("unit %d: Send waits for more although all %d messages were answered (returned %d responses, err %v)", u, len(answers[u]), len(r), err)
		}
		if err != nil {
			t.Fatalf("unit %d: Send failed although every message was answered: %v", u, err)
		}
		if len(r) != len(answers[u]) {
			t.Fatalf("unit %d: %d responses for %d messages", u, len(r), len(answers[u]))
		}
		for i, a := range answers[u] {
			if err := a.Match(r[i]); err != nil {
				t.Fatalf("unit %d, message %d (%v): %v", u, i, a, err)
			}
		}
	}
	kept(t, got, answers)
	if fc.Closed != 0 {
		t.Fatalf("Send closed the connection")
	}
}

// kept: what a Send returned is the caller's, later Sends do not change it.
func kept(t *rapid.T, got [][]netx.Response, answers [][]*fake.Answer) {
	for u := range got {
		for i, a := range answers[u] {
			if err := a.Match(got[u][i]); err != nil {
				t.Fatalf("unit %d, message %d (%v), after the last Send: %v", u, i, a, err)
			}
		}
	}
}

// Units of arbitrary messages against arbitrary conforming streams.
func TestPairing(t *testing.T) {
	hx.Check(t, 4000, 60000, "1 to 3 units of 0 to 8 (some: 14 to 40, or 100 to 300) messages, each answered by 0 to 400 intermediate messages of 0 to 30000 bytes and an acceptance or a refusal, the stream split at drawn points; non-trivial: at least one refusal or intermediate message among 2 or more answers", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		big := g.Chance(50, "big")
		fc := &fake.Conn{}
		var how string
		fc.Chunk, how = fake.Chunker(g, "chunk")
		c.Class("stream " + how)
		var units, streams [][]byte
		var answers [][]*fake.Answer
		var desc []string
		refused, between, total := 0, 0, 0
		nu := g.Int(1, 3, "units")
		var pending []byte // async notices that arrive before the next unit's answers
		for u := 0; u < nu; u++ {
			var unit []byte
			stream := pending
			pending = nil
			var as []*fake.Answer
			n, big := g.Int(0, 8, "n"), big
			if g.Chance(6, "long") {
				n, big = g.Int(14, 40, "nlong"), false
				if g.Chance(15, "verylong") {
					n = g.Int(100, 300, "nverylong")
				}
				c.Class("long unit")
			}
			for i := 0; i < n; i++ {
				typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
				unit = append(unit, fake.ClientMsg(g, typ, "msg")...)
				refuse := typ != wire.SessReset && g.Chance(35, "refuse")
				a := fake.NewAnswer(g, typ, refuse, big, "ans")
				as = append(as, a)
				stream = append(stream, a.Bytes()...)
				between += len(a.Before)
				total++
				if refuse {
					refused++
				}
				desc = append(desc, a.String())
			}
			if g.Chance(20, "async") {
				n := fake.Intermediate(g, wire.SNotice, big, "async")
				c.Class("notice between units")
				if g.Chance(50, "async.with") {
					stream = append(stream, n...)
				} else {
					pending = n
				}
			}
			units, streams, answers = append(units, unit), append(streams, stream), append(answers, as)
		}
		upFront := g.Chance(25, "upfront")
		c.ClassIf(upFront, "stream ahead of the units")
		c.ClassIf(big, "messages larger than the buffer")
		c.ClassIf(nu > 1, "several units")
		c.ClassIf(refused > 1, "2+ refusals")
		for k := range g.Seen {
			c.Class(k)
		}
		key := fmt.Sprintf("%s; %s", how, strings.Join(desc, " | "))
		if total >= 2 && refused+between > 0 {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
		run(t, fc, units, answers, streams, upFront)
	})
}

// Message sizes around the reader's buffer: each server message type, every payload size
// near the boundary, at drawn offsets and splits.
func TestBoundary(t *testing.T) {
	hx.Check(t, 3000, 40000, "two statements, the first answered by a result set with one message of 4060..4130 or 8160..8220 bytes at an offset of 0..40 bytes, or by an error of such a size; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		var how string
		fc.Chunk, how = fake.Chunker(g, "chunk")
		size := 4060 + g.Int(0, 70, "size")
		if g.Chance(30, "two") {
			size = 8160 + g.Int(0, 60, "size2")
		}
		unit := append(wire.Message(wire.StmtExecute, []byte("x")), wire.Message(wire.StmtExecute, []byte("yy"))...)
		var stream []byte
		off := g.Int(0, 40, "off")
		if off >= 5 {
			stream = append(stream, wire.Message(wire.SFetchDone, make([]byte, off-5))...)
		}
		a := &fake.Answer{Typ: wire.StmtExecute}
		kind := g.Pick(5, "kind")
		body := gen.Pattern(size, byte(g.Int(0, 255, "a")), byte(g.Int(0, 3, "s")))
		switch kind {
		case 0:
			a.Before = [][]byte{wire.Message(wire.SRow, wire.RowPayload(body))}
		case 1:
			a.Before = [][]byte{wire.Message(wire.SColumnMetaData, wire.ColumnMetaPayload(string(body), 65, 7))}
		case 2:
			a.Before = [][]byte{wire.Message(wire.SNotice, wire.NoticePayload(1, 2, body))}
		case 3:
			a.Before = [][]byte{wire.Message(wire.SRow, wire.RowPayload(body)), wire.Message(wire.SRow, wire.RowPayload(body[:g.Int(0, size, "second")]))}
		case 4:
			for i := range body {
				body[i] = 'a' + body[i]%26
			}
			a.Err = &fake.SrvErr{Code: 1064, State: "42000", Msg: string(body)}
			a.Last = a.Err.Frame()
		}
		if a.Last == nil {
			a.Last = wire.Message(wire.SStmtExecuteOk, nil)
		}
		stream = append(stream, a.Bytes()...)
		b := fake.NewAnswer(g, wire.StmtExecute, g.Chance(50, "refuse"), false, "ans")
		stream = append(stream, b.Bytes()...)
		c.Class(fmt.Sprintf("kind %d", kind))
		key := fmt.Sprintf("%s size %d off %d kind %d, then %v", how, size, off, kind, b)
		c.NonTrivial(key)
		c.Sample(func() string { return key })
		run(t, fc, [][]byte{unit}, [][]*fake.Answer{{a, b}}, [][]byte{stream}, false)
	})
}

// Every message type refused and accepted, with every intermediate type before it.
func TestEveryType(t *testing.T) {
	hx.Rule(t, "every client message type of a unit x accepted/refused x each single intermediate message type (and none) x payload sizes 0, 1, 4091, 4092, 5000 x 3 splits, followed by a second message with the opposite outcome; exhaustive")
	hx.Exhaustive(t)
	for _, typ := range fake.UnitTypes {
		for refuse := 0; refuse < 2; refuse++ {
			if typ == wire.SessReset && refuse == 1 {
				continue
			}
			for _, k := range []byte{0, wire.SNotice, wire.SColumnMetaData, wire.SRow, wire.SFetchDone, wire.SFetchSuspended, wire.SMoreResultsets, wire.SMoreOutParams} {
				for _, size := range []int{0, 1, 4091, 4092, 5000} {
					for _, chunk := range []int{0, 1, 7} {
						hx.Each(t, func(c *hx.Case) {
							one := func(typ byte, refuse bool) *fake.Answer {
								a := &fake.Answer{Typ: typ}
								d := gen.Pattern(size, 3, 1)
								switch k {
								case 0:
								case wire.SNotice:
									a.Before = [][]byte{wire.Message(k, wire.NoticePayload(3, 1, d))}
								case wire.SColumnMetaData:
									a.Before = [][]byte{wire.Message(k, wire.ColumnMetaPayload(string(d), 65, 7))}
								case wire.SRow:
									a.Before = [][]byte{wire.Message(k, wire.RowPayload(d))}
								default:
									a.Before = [][]byte{wire.Message(k, nil)}
								}
								if refuse {
									a.Err = &fake.SrvErr{Code: 5000 + uint32(typ), State: "HY000", Msg: "no"}
									a.Last = a.Err.Frame()
								} else {
									a.Last = wire.Message(fake.Terminal(typ), nil)
								}
								return a
							}
							a, b := one(typ, refuse == 1), one(wire.StmtExecute, refuse == 0)
							fc := &fake.Conn{In: append(a.Bytes(), b.Bytes()...)}
							if chunk > 0 {
								fc.Chunk = func(int) int { return chunk }
							}
							key := fmt.Sprint(typ, refuse, k, size, chunk)
							c.NonTrivial(key)
							c.Sample(func() string { return fmt.Sprintf("%v, then %v, split %d", a, b, chunk) })
							unit := append(wire.Message(typ, []byte{1, 2}), wire.Message(wire.StmtExecute, nil)...)
							r, err := connection.New(fc).Send(context.Background(), unit)
							if err != nil || fc.Starved || len(r) != 2 {
								t.Fatalf("%s: responses %v, err %v, starved %v", key, r, err, fc.Starved)
							}
							for i, x := range []*fake.Answer{a, b} {
								if err := x.Match(r[i]); err != nil {
									t.Fatalf("%s: message %d: %v", key, i, err)
								}
							}
						})
					}
				}
			}
		}
	}
}

// Units made by the builder, answered by a server that decodes them.
func TestBuilderUnits(t *testing.T) {
	hx.Check(t, 1200, 15000, "units built by random programs; each message, decoded from what was written, is accepted or refused at random; non-trivial: 3 or more messages, at least one refused", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		p := g.Program(gen.Opts{MaxOps: 10, MaxDepth: 3, ExprDepth: 1})
		x := xtorm.New(256)
		p.Run(&x.Builder, p.Ops)
		rec := &gen.Recorder{}
		x.Send(context.Background(), rec)
		want := gen.Expected(p.Ops)
		var as []*fake.Answer
		var stream []byte
		refused := 0
		if len(rec.Units) > 0 {
			frames, err := wire.Frames(rec.Units[0])
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, f := range frames {
				refuse := g.Chance(30, "refuse")
				if refuse {
					refused++
				}
				a := fake.NewAnswer(g, byte(f.Type), refuse, false, "ans")
				as = append(as, a)
				stream = append(stream, a.Bytes()...)
			}
		}
		if len(as) != len(want) {
			t.Fatalf("%d messages for %d operations", len(as), len(want))
		}
		fc := &fake.Conn{In: stream}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		r, err := x.Send(context.Background(), connection.New(fc))
		if err != nil || fc.Starved || len(r) != len(as) {
			t.Fatalf("%d responses for %d messages, err %v, starved %v", len(r), len(as), err, fc.Starved)
		}
		for i, a := range as {
			if err := a.Match(r[i]); err != nil {
				t.Fatalf("message %d (%v): %v", i, a, err)
			}
		}
		if len(as) >= 3 && refused > 0 {
			key := fmt.Sprint(as)
			c.NonTrivial(key)
			c.Sample(func() string { return gen.Ops(p.Ops) + " => " + key })
		}
	})
}

// Messages of every magnitude, in both directions.
func TestLarge(t *testing.T) {
	hx.Rule(t, "a row, notice, column description, error or acceptance of 2^k-1, 2^k and 2^k+1 bytes for k = 12..21 and 24, or a client message of that size, between two other statements, the first of them refused; read whole or in pieces; non-trivial: all")
	var sizes []int
	for _, k := range []uint{12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24} {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	if hx.Thorough() {
		sizes = append(sizes, 1<<25, 1<<26+3)
	}
	body := gen.Pattern(1<<26+3, 'a', 0)
	for _, size := range sizes {
		for kind := 0; kind < 6; kind++ {
			for _, chunk := range []int{0, 1000, 4096, 65536} {
				if size > 1<<21 && chunk == 1000 {
					continue
				}
				hx.Each(t, func(c *hx.Case) {
					d := body[:size]
					refused := &fake.Answer{Typ: wire.StmtExecute, Err: &fake.SrvErr{Code: 1064, State: "42000", Msg: "first"}}
					refused.Last = refused.Err.Frame()
					a := &fake.Answer{Typ: wire.Prepare, Last: wire.Message(wire.SOk, nil)}
					msg := wire.Message(wire.Prepare, []byte{8, 1})
					switch kind {
					case 0:
						a.Typ = wire.StmtExecute
						msg[4] = wire.StmtExecute
						a.Before = [][]byte{wire.Message(wire.SRow, wire.RowPayload(d))}
						a.Last = wire.Message(wire.SStmtExecuteOk, nil)
					case 1:
						a.Before = [][]byte{wire.Message(wire.SNotice, wire.NoticePayload(1, 2, d))}
					case 2:
						a.Typ = wire.StmtExecute
						msg[4] = wire.StmtExecute
						a.Before = [][]byte{wire.Message(wire.SColumnMetaData, wire.ColumnMetaPayload(string(d), 0, 7)), wire.Message(wire.SColumnMetaData, wire.ColumnMetaPayload("c", 0, 1))}
						a.Last = wire.Message(wire.SStmtExecuteOk, nil)
					case 3:
						a.Err = &fake.SrvErr{Code: 1, State: "HY000", Msg: string(d)}
						a.Last = a.Err.Frame()
					case 4:
						a.Last = wire.Message(wire.SOk, wire.OkPayload(string(d)))
					case 5:
						msg = wire.Message(wire.Prepare, d)
					}
					unit := append(wire.Message(wire.StmtExecute, nil), msg...)
					unit = append(unit, wire.Message(wire.StmtExecute, []byte{1})...)
					last := &fake.Answer{Typ: wire.StmtExecute, Last: wire.Message(wire.SStmtExecuteOk, nil)}
					fc := &fake.Conn{In: append(append(refused.Bytes(), a.Bytes()...), last.Bytes()...)}
					if chunk > 0 {
						fc.Chunk = func(int) int { return chunk }
					}
					key := fmt.Sprintf("kind %d, %d bytes, pieces of %d", kind, size, chunk)
					c.NonTrivial(key)
					c.Sample(func() string { return key })
					r, err := connection.New(fc).Send(context.Background(), unit)
					if err != nil || fc.Starved || len(r) != 3 || len(fc.In) != 0 {
						t.Fatalf("%s: %d responses, err %v, starved %v, %d bytes not consumed", key, len(r), err, fc.Starved, len(fc.In))
					}
					for i, x := range []*fake.Answer{refused, a, last} {
						if err := x.Match(r[i]); err != nil {
							t.Fatalf("%s: message %d: %v", key, i, err)
						}
					}
				})
			}
		}
	}
}

// Long histories of one connection, and long units.
func TestLong(t *testing.T) {
	hx.Check(t, 25, 250, "one connection used for 300 to 3000 units of 1 to 4 messages, answers (and notices) as they come, or one unit of 500 to 20000 messages; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		var how string
		fc.Chunk, how = fake.Chunker(g, "chunk")
		conn := connection.New(fc)
		// A few answers, drawn, come again and again in an order that does not repeat soon.
		var types []byte
		var answers []*fake.Answer
		for i := 0; i < 7; i++ {
			typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
			types = append(types, typ)
			a := fake.NewAnswer(g, typ, typ != wire.SessReset && i%2 == 0, i == 0, "ans")
			if len(a.Before) > 3 {
				a.Before = a.Before[:3]
			}
			answers = append(answers, a)
		}
		step := g.Int(1, 1000, "step")
		n, per := g.Int(300, 3000, "units"), 0
		if g.Chance(40, "one") {
			n, per = 1, g.Int(500, 20000, "messages")
			c.Class("one long unit")
		}
		key := fmt.Sprint(how, n, per, answers)
		c.NonTrivial(key)
		c.Sample(func() string { return fmt.Sprintf("%d units, %s, of %v", n, how, answers) })
		x := 0
		var got [][]netx.Response
		var all [][]*fake.Answer
		for u := 0; u < n; u++ {
			m := per
			if m == 0 {
				m = 1 + u%4
			}
			var unit []byte
			var as []*fake.Answer
			fc.Log = nil
			for i := 0; i < m; i++ {
				x = (x*31 + step + i) % 1009
				k := x % len(types)
				unit = append(unit, wire.Message(types[k], []byte{byte(u), byte(i)})...)
				as = append(as, answers[k])
				fc.In = append(fc.In, answers[k].Bytes()...)
			}
			r, err := conn.Send(context.Background(), unit)
			if err != nil || fc.Starved || len(r) != m {
				t.Fatalf("unit %d: %d responses for %d messages, err %v, starved %v", u, len(r), m, err, fc.Starved)
			}
			for i, a := range as {
				if err := a.Match(r[i]); err != nil {
					t.Fatalf("unit %d, message %d: %v", u, i, err)
				}
			}
			got, all = append(got, r), append(all, as)
		}
		kept(t, got, all)
	})
}

// A connection that is given another transport starts afresh on it.
func TestReset(t *testing.T) {
	hx.Check(t, 4000, 60000, "2 to 5 units on one connection object, which is given another transport before some of them (the way TLS is enabled), with up to 12000 bytes of the old transport's stream not consumed, or broken off; messages sent as units or, singly, by WriteOne; non-trivial: another transport with bytes left on the old one", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		conn := connection.New(fc)
		reset, ok := interface{}(conn).(interface{ Reset(net.Conn) })
		one, _ := interface{}(conn).(interface {
			WriteOne(context.Context, []byte) (netx.Response, error)
		})
		if !ok {
			c.Class("no Reset")
			return
		}
		var desc []string
		left := false
		var got [][]netx.Response
		var all [][]*fake.Answer
		for u, nu := 0, g.Int(2, 5, "units"); u < nu; u++ {
			if u > 0 && g.Chance(70, "reset") {
				if g.Chance(70, "left") {
					// Something of the old stream is already in the connection's buffer.
					k := g.Int(1, 12000, "leftover")
					junk := gen.Pattern(k, byte(g.Int(0, 255, "a")), byte(g.Int(0, 9, "b")))
					if g.Chance(50, "wellformed") {
						junk = wire.Message(wire.SOk, nil)
						for i := 0; i < g.Int(0, 3, "more"); i++ {
							junk = append(junk, (&fake.SrvErr{Code: 1045, State: "HY000", Msg: "stale"}).Frame()...)
						}
					}
					a := fake.NewAnswer(g, wire.StmtExecute, false, false, "last")
					fc.Chunk = nil
					fc.In = append(append(append([]byte(nil), fc.In...), a.Bytes()...), junk...)
					if r, err := conn.Send(context.Background(), wire.Message(wire.StmtExecute, nil)); err != nil || len(r) != 1 || a.Match(r[0]) != nil {
						t.Fatalf("unit before the reset: %v, %v", r, err)
					}
					desc = append(desc, fmt.Sprintf("(%d bytes left)", len(junk)))
					left = true
				}
				old := fc
				n := len(old.Log)
				fc = &fake.Conn{}
				fc.Chunk, _ = fake.Chunker(g, "chunk")
				reset.Reset(fc)
				if len(old.Log) != n {
					t.Fatalf("Reset uses the old transport: %v", old.Log[n:])
				}
				old.In = nil
				defer func() {
					if len(old.Log) != n {
						t.Fatalf("the old transport is used: %v", old.Log[n:])
					}
				}()
				desc = append(desc, "reset")
			}
			var unit, stream []byte
			var as []*fake.Answer
			for i, n := 0, g.Int(0, 5, "n"); i < n; i++ {
				typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
				a := fake.NewAnswer(g, typ, typ != wire.SessReset && g.Chance(35, "refuse"), false, "ans")
				m := fake.ClientMsg(g, typ, "msg")
				as = append(as, a)
				desc = append(desc, a.String())
				if one != nil && g.Chance(30, "one") {
					// What was written so far first, to keep the order.
					as1 := as[:len(as)-1]
					got, all = append(got, flush(t, fc, conn, unit, stream, as1)), append(all, as1)
					unit, stream, as = nil, nil, nil
					fc.In = append(append([]byte(nil), fc.In...), a.Bytes()...)
					n := len(fc.Log)
					r, err := one.WriteOne(context.Background(), m)
					if err != nil {
						t.Fatalf("WriteOne: %v", err)
					}
					if err := a.Match(r); err != nil {
						t.Fatalf("WriteOne (%v): %v", a, err)
					}
					w := (&fake.Conn{Log: fc.Log[n:]}).Writes()
					if len(w) != 1 || !bytes.Equal(w[0], m) {
						t.Fatalf("WriteOne wrote %x for %x", w, m)
					}
					c.Class("WriteOne")
					continue
				}
				unit = append(unit, m...)
				stream = append(stream, a.Bytes()...)
			}
			got, all = append(got, flush(t, fc, conn, unit, stream, as)), append(all, as)
		}
		kept(t, got, all)
		if left {
			key := strings.Join(desc, " | ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

func flush(t *rapid.T, fc *fake.Conn, conn netx.Sender, unit, stream []byte, as []*fake.Answer) []netx.Response {
	fc.In = append(append([]byte(nil), fc.In...), stream...)
	r, err := conn.Send(context.Background(), unit)
	if err != nil || fc.Starved || len(r) != len(as) {
		t.Fatalf("%d responses for %d messages, err %v, starved %v", len(r), len(as), err, fc.Starved)
	}
	for i, a := range as {
		if err := a.Match(r[i]); err != nil {
			t.Fatalf("message %d (%v): %v", i, a, err)
		}
	}
	return r
}
