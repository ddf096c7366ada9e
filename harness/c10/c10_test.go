package c10

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// history checks the calls one Send made on the transport.
//
// deadline is the caller's (zero: none); it must be in force, for reading and for writing,
// during every Read or Write respectively, whether this Send or an earlier one set it.
func history(calls []fake.Call, unit []byte, deadline time.Time) error {
	writes := 0
	for i, l := range calls {
		switch l.What {
		case "write":
			writes++
			if !l.Time.Equal(deadline) {
				return fmt.Errorf("call %d: Write under deadline %v, the context's is %v", i, l.Time, deadline)
			}
			if !bytes.Equal(l.Data, unit) {
				return fmt.Errorf("call %d: wrote %d bytes that are not the unit of %d bytes", i, len(l.Data), len(unit))
			}
		case "read":
			if writes == 0 {
				return fmt.Errorf("call %d: Read before the unit was written: %v", i, calls)
			}
			if !l.Time.Equal(deadline) {
				return fmt.Errorf("call %d: Read under deadline %v, the context's is %v", i, l.Time, deadline)
			}
		case "close":
			return fmt.Errorf("call %d: the connection is closed", i)
		}
	}
	if writes != 1 && !(writes == 0 && len(unit) == 0) {
		return fmt.Errorf("%d writes for one unit of %d bytes", writes, len(unit))
	}
	return nil
}

var base = time.Now().Add(time.Hour)

// own is a context.Context of the caller's making.
type own struct{ d time.Time }

func (o own) Deadline() (time.Time, bool) { return o.d, !o.d.IsZero() }
func (own) Done() <-chan struct{}         { return nil }
func (own) Err() error                    { return nil }
func (own) Value(interface{}) interface{} { return nil }

// ctx draws a context, its deadline, and whether that has already passed.
func ctx(g *gen.G) (context.Context, time.Time, bool, context.CancelFunc) {
	none := func() {}
	switch g.Int(0, 5, "ctx") {
	case 0, 1:
		d := base.Add(time.Duration(g.Int(0, 1<<40, "deadline")) * time.Duration([]int{1, 60, 50000}[g.Pick(3, "scale")]))
		if g.Chance(40, "near") {
			// Close to one another, or the same.
			d = base.Add([]time.Duration{0, 0, 1, time.Microsecond, time.Millisecond, time.Second / 2, time.Second, -1, -time.Second}[g.Pick(9, "delta")])
		}
		c, cancel := context.WithDeadline(context.Background(), d)
		if g.Chance(30, "value") {
			c = context.WithValue(c, "k", 1)
		}
		return c, d, false, cancel
	case 2:
		c, cancel := context.WithCancel(context.Background())
		if g.Chance(30, "value") {
			c = context.WithValue(c, "k", 1)
		}
		return c, time.Time{}, false, cancel
	case 3:
		// Far away, in another zone, or nested in one that is later.
		d := []time.Time{
			time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
			base.Add(200 * 365 * 24 * time.Hour),
			base.In(time.FixedZone("x", -7*3600)),
			base.Round(0),
			base.Truncate(time.Second),
		}[g.Pick(5, "odd")]
		if g.Chance(50, "own") {
			return own{d}, d, false, none
		}
		out, c1 := context.WithDeadline(context.Background(), d.Add(time.Duration(g.Int(0, 1<<40, "later"))))
		in, c2 := context.WithDeadline(out, d)
		return in, d, false, func() { c2(); c1() }
	case 4:
		if g.Chance(60, "own") {
			return own{}, time.Time{}, false, none
		}
		d := time.Now().Add(-time.Duration(g.Int(1, 1<<50, "ago")))
		if g.Chance(20, "epoch") {
			d = time.Unix(int64(g.Int(0, 1, "s")), 0)
		}
		if g.Chance(40, "own") {
			return own{d}, d, true, none
		}
		c, cancel := context.WithDeadline(context.Background(), d)
		return c, d, true, cancel
	}
	return context.Background(), time.Time{}, false, none
}

// refused reports whether a Send that failed made no use of the connection: what it may do
// when the deadline has already passed.
func refused(calls []fake.Call) bool {
	for _, l := range calls {
		if l.What == "read" || l.What == "write" {
			return false
		}
	}
	return true
}

type fixed struct{ c netx.Conn }

func (f fixed) New(context.Context) (netx.Conn, error) { return f.c, nil }

// A history of Sends on one connection, directly or through a builder or a pool.
func TestHistory(t *testing.T) {
	hx.Check(t, 8000, 80000, "1 to 5 Sends on one connection, each with a deadline of its own or none, of raw units or units made by a builder, directly or through a pool; non-trivial: 2 or more Sends, with and without a deadline", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, true)
		fc := &fake.Conn{}
		conn := connection.New(fc)
		var sender netx.Sender = conn
		pooled := g.Chance(30, "pool")
		if pooled {
			sender = fifoch.New(fixed{conn}, 2)
			c.Class("through a pool")
		}
		with, without := 0, 0
		var desc string
		for i, n := 0, g.Int(1, 5, "sends"); i < n; i++ {
			cx, deadline, past, cancel := ctx(g)
			if deadline.IsZero() {
				without++
			} else {
				with++
			}
			var unit []byte
			var x *xtorm.XPipe
			built := g.Chance(40, "built")
			if built {
				p := g.Program(gen.Opts{MaxOps: 5, MaxDepth: 2, ExprDepth: 1})
				x = xtorm.New(g.Int(0, 300, "cap"))
				p.Run(&x.Builder, p.Ops)
				rec := &gen.Recorder{}
				x.Send(context.Background(), rec)
				if len(rec.Units) == 1 {
					unit = append(unit, rec.Units[0]...)
				}
				c.Class("made by a builder")
			} else {
				for j, m := 0, g.Int(1, 5, "msgs"); j < m; j++ {
					unit = append(unit, fake.ClientMsg(g, fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")], "msg")...)
				}
			}
			frames, err := wire.Frames(unit)
			if err != nil {
				t.Fatalf("%v", err)
			}
			fc.In = nil
			for _, f := range frames {
				refuse := !pooled && f.Type != wire.SessReset && g.Chance(20, "refuse")
				fc.In = append(fc.In, fake.NewAnswer(g, byte(f.Type), refuse, false, "ans").Bytes()...)
			}
			fc.Log, fc.Starved = nil, false
			before := append([]byte(nil), unit...)
			if built {
				_, err = x.Send(cx, sender)
			} else {
				_, err = sender.Send(cx, unit)
			}
			cancel()
			if past {
				c.Class("deadline already passed")
				if err != nil && refused(fc.Log) {
					return
				}
			}
			if err != nil || fc.Starved {
				t.Fatalf("Send %d failed: %v (starved %v)", i, err, fc.Starved)
			}
			if !bytes.Equal(before, unit) {
				t.Fatalf("Send %d changed the unit it was given", i)
			}
			if err := history(fc.Log, unit, deadline); err != nil {
				t.Fatalf("Send %d: %v", i, err)
			}
			desc += fmt.Sprintf("%d messages, %d bytes, deadline %v; ", len(frames), len(unit), !deadline.IsZero())
		}
		if with > 0 && without > 0 {
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		}
	})
}

// Faults of the transport's own calls.
func TestFaults(t *testing.T) {
	hx.Check(t, 8000, 80000, "SetDeadline or Write fails (after 0 bytes, some, or all of them) in any Send of a history; non-trivial: a fault after a successful Send", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		conn := connection.New(fc)
		n := g.Int(1, 4, "sends")
		at := g.Pick(n, "fault at")
		var desc string
		for i := 0; i <= at; i++ {
			cx, deadline, past, cancel := ctx(g)
			var unit []byte
			fc.In = nil
			for j, m := 0, g.Int(1, 4, "msgs"); j < m; j++ {
				typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
				unit = append(unit, fake.ClientMsg(g, typ, "msg")...)
				fc.In = append(fc.In, fake.NewAnswer(g, typ, false, false, "ans").Bytes()...)
			}
			fc.Log = nil
			if i < at {
				if _, err := conn.Send(cx, unit); err != nil {
					if past && refused(fc.Log) {
						return
					}
					t.Fatalf("Send %d: %v", i, err)
				}
				cancel()
				continue
			}
			cause := []error{errors.New("some cause"), os.ErrDeadlineExceeded, net.ErrClosed, io.ErrClosedPipe, &net.OpError{Op: "write", Err: errors.New("broken pipe")}}[g.Pick(5, "cause")]
			inWrite := g.Chance(60, "write")
			if inWrite {
				fc.WriteErr = cause
				fc.WriteN = []int{0, g.Int(0, len(unit), "partial"), len(unit)}[g.Pick(3, "written")]
				c.Class("Write fails")
			} else {
				fc.DeadlineErr = cause
				c.Class("SetDeadline fails")
			}
			desc = fmt.Sprintf("Send %d: write %v, %d of %d bytes, %v", i, inWrite, fc.WriteN, len(unit), cause)
			var r []netx.Response
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						t.Fatalf("panic: %v", p)
					}
				}()
				r, err = conn.Send(cx, unit)
			}()
			cancel()
			if past && err != nil && refused(fc.Log) && len(fc.Log) == 0 {
				return
			}
			asked := false
			for _, l := range fc.Log {
				asked = asked || l.Err == cause
			}
			if !inWrite && !asked && history(fc.Log, unit, deadline) == nil {
				// An earlier Send left this very deadline (none, too) in force.
				return
			}
			if err == nil {
				t.Fatalf("%s: no error, responses %v", desc, r)
			}
			if !errors.Is(err, cause) {
				t.Fatalf("%s: error %v does not wrap the cause", desc, err)
			}
			for _, l := range fc.Log {
				if l.What == "read" {
					t.Fatalf("%s: something was read afterwards", desc)
				}
				if l.What == "write" && !inWrite {
					t.Fatalf("%s: the unit was written without its deadline", desc)
				}
			}
			if w := fc.Writes(); inWrite && (len(w) != 1 || !bytes.Equal(w[0], unit)) {
				t.Fatalf("%s: %d writes", desc, len(w))
			}
			for _, l := range fc.Log {
				if l.What == "write" {
					break
				}
				if l.What != "read" && !l.Time.Equal(deadline) {
					t.Fatalf("%s: deadline %v, the context's is %v", desc, l.Time, deadline)
				}
			}
		}
		if at > 0 {
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		}
	})
}

// The authentication exchange and single messages, too, run under the caller's deadline.
func TestAuthenticateDeadline(t *testing.T) {
	hx.Check(t, 1500, 20000, "authentication (MYSQL41, SHA256_MEMORY, PLAIN) before a Send, each with a deadline of its own or none; non-trivial: the deadlines differ", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		conn := connection.New(fc)
		cx, deadline, past, cancel := ctx(g)
		defer cancel()
		k := g.Pick(3, "mech")
		if k < 2 {
			fc.In = wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(gen.Pattern(20, 1, 3)))
		}
		fc.In = append(fc.In, wire.Message(wire.SAuthenticateOk, nil)...)
		if err := conn.Authenticate(cx, creds{}, starters[k]); err != nil {
			if past && refused(fc.Log) {
				return
			}
			t.Fatalf("%v", err)
		}
		for _, l := range fc.Log {
			if (l.What == "read" || l.What == "write") && !l.Time.Equal(deadline) {
				t.Fatalf("a %s under deadline %v, the context's is %v", l.What, l.Time, deadline)
			}
		}
		cx2, deadline2, past2, cancel2 := ctx(g)
		defer cancel2()
		fc.Log = nil
		fc.In = wire.Message(wire.SStmtExecuteOk, nil)
		unit := wire.Message(wire.StmtExecute, nil)
		if _, err := conn.Send(cx2, unit); err != nil {
			if past2 && refused(fc.Log) {
				return
			}
			t.Fatalf("%v", err)
		}
		if err := history(fc.Log, unit, deadline2); err != nil {
			t.Fatalf("the Send after authentication: %v", err)
		}
		if !deadline.Equal(deadline2) {
			key := fmt.Sprint(k, deadline, deadline2)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Faults of the transport's own calls while authenticating.
func TestAuthenticateFaults(t *testing.T) {
	hx.Check(t, 3000, 30000, "SetDeadline or Write fails (after 0 bytes, some, or all of them) at the start of the authentication or after the challenge; non-trivial: the fault was met", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		conn := connection.New(fc)
		cx, _, past, cancel := ctx(g)
		defer cancel()
		k := g.Pick(3, "mech")
		if k < 2 {
			fc.In = wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(gen.Pattern(20, 1, 3)))
		}
		fc.In = append(fc.In, wire.Message(wire.SAuthenticateOk, nil)...)
		cause := []error{errors.New("some cause"), os.ErrDeadlineExceeded, net.ErrClosed, io.ErrClosedPipe}[g.Pick(4, "cause")]
		inWrite := g.Chance(50, "write")
		at := g.Pick(2, "at")
		if inWrite {
			fc.WriteErr, fc.WriteOK = cause, at
			fc.WriteN = []int{0, 1, 5, 10, 1000}[g.Pick(5, "written")]
		} else {
			fc.DeadlineErr, fc.DeadlineOK = cause, at
		}
		desc := fmt.Sprintf("mechanism %d, write %v, fault at call %d (%d bytes written), %v", k, inWrite, at, fc.WriteN, cause)
		err := conn.Authenticate(cx, creds{}, starters[k])
		met := false
		for i, l := range fc.Log {
			if l.Err != cause {
				continue
			}
			met = true
			for _, l := range fc.Log[i+1:] {
				if l.What == "read" || l.What == "write" {
					t.Fatalf("%s: a %s afterwards", desc, l.What)
				}
			}
			break
		}
		switch {
		case met && err == nil:
			t.Fatalf("%s: no error", desc)
		case met && !errors.Is(err, cause):
			t.Fatalf("%s: error %v does not wrap the cause", desc, err)
		case !met && err != nil && !past:
			t.Fatalf("%s: %v", desc, err)
		}
		if met {
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		}
	})
}

// Units of every magnitude are one write.
func TestSizes(t *testing.T) {
	hx.Rule(t, "units of 2^k-1, 2^k and 2^k+1 bytes for k = 4..21 and 24 (one message, or many of 10 or 1000 bytes), after a first small unit under another deadline; raw or made by a builder; non-trivial: all")
	body := gen.Pattern(1<<24+64, 'a', 0)
	for k := uint(4); k <= 24; k++ {
		if k > 21 && k < 24 && !hx.Thorough() {
			continue
		}
		for d := -1; d <= 1; d++ {
			size := 1<<k + d
			for form := 0; form < 4; form++ {
				if form == 1 && size > 1<<20 {
					continue // two million messages of 10 bytes
				}
				hx.Each(t, func(c *hx.Case) {
					fc := &fake.Conn{}
					conn := connection.New(fc)
					deadline := base.Add(time.Duration(size) * time.Second)
					for i := 0; i < 2; i++ {
						var cx context.Context = context.Background()
						cancel := context.CancelFunc(func() {})
						want := time.Time{}
						if i == form%2 {
							cx, cancel = context.WithDeadline(cx, deadline)
							want = deadline
						}
						n := size
						if i == 0 {
							n = 30
						}
						var unit []byte
						x := xtorm.New(0)
						switch form {
						case 0, 3:
							unit = wire.Message(wire.StmtExecute, body[:max(0, n-5)])
						case 1, 2:
							step := []int{0, 10, 1000}[form]
							for len(unit)+step+5 <= n {
								unit = append(unit, wire.Message(wire.Prepare, body[:step-5])...)
							}
							unit = append(unit, wire.Message(wire.Prepare, body[:max(0, n-len(unit)-5)])...)
						}
						if form == 3 {
							x.StmtExecute(string(body[:n]))
							rec := &gen.Recorder{}
							x.Send(cx, rec)
							unit = append([]byte(nil), rec.Units[0]...)
						}
						frames, err := wire.Frames(unit)
						if err != nil {
							t.Fatalf("%v", err)
						}
						fc.In, fc.Log = nil, nil
						for range frames {
							fc.In = append(fc.In, wire.Message(wire.SOk, nil)...)
						}
						if form == 3 {
							_, err = x.Send(cx, conn)
						} else {
							_, err = conn.Send(cx, unit)
						}
						cancel()
						if err != nil {
							t.Fatalf("unit of %d bytes: %v", len(unit), err)
						}
						if err := history(fc.Log, unit, want); err != nil {
							t.Fatalf("unit of %d bytes, form %d: %v", len(unit), form, err)
						}
					}
					key := fmt.Sprintf("%d bytes, form %d", size, form)
					c.NonTrivial(key)
					c.Sample(func() string { return key })
				})
			}
		}
	}
}

// Many Sends on one connection.
func TestLong(t *testing.T) {
	hx.Check(t, 25, 250, "300 to 6000 Sends on one connection, with a deadline of their own or none in a drawn pattern; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		conn := connection.New(fc)
		n, a, b := g.Int(300, 6000, "sends"), g.Int(1, 500, "a"), g.Int(2, 60, "b")
		key := fmt.Sprint(n, a, b)
		c.NonTrivial(key)
		c.Sample(func() string { return fmt.Sprintf("%d Sends, a deadline for every %d in %d", n, b/2, b) })
		for i := 0; i < n; i++ {
			var cx context.Context = context.Background()
			cancel := context.CancelFunc(func() {})
			want := time.Time{}
			if x := i * a % b; x >= b/2 {
				want = base.Add(time.Duration(i*a) * time.Millisecond)
				cx, cancel = context.WithDeadline(cx, want)
			}
			unit := append(wire.Message(wire.StmtExecute, []byte{byte(i), byte(i >> 8)}), wire.Message(wire.ExpectClose, nil)...)
			fc.Log, fc.In = nil, append(wire.Message(wire.SStmtExecuteOk, nil), wire.Message(wire.SOk, nil)...)
			_, err := conn.Send(cx, unit)
			cancel()
			if err != nil {
				t.Fatalf("Send %d: %v", i, err)
			}
			if err := history(fc.Log, unit, want); err != nil {
				t.Fatalf("Send %d: %v", i, err)
			}
		}
	})
}
