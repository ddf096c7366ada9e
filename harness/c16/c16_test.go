package c16

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// Controlled schedules in which most units fail.
func TestSchedules(t *testing.T) {
	hx.Check(t, 3000, 40000, "pools of size 0 to 20, histories of 3 to 50 steps in which half of the units fail (one message refused, the rest of a block refused, fatal error, transport error, timeout), with other units in flight; non-trivial: a failed unit among others", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := fake.NewWorld(fake.PoolSize(g))
		err := w.History(g, g.Int(3, 50, "steps"), 50, g.Int(0, 1, "close")*3)
		if err != nil {
			t.Fatalf("%v\nhistory: %s", err, strings.Join(w.Trace, "; "))
		}
		for k := range w.Stats {
			c.Class(k)
		}
		if w.Stats["unit failed"] > 0 && w.Stats["succeeds"] > 0 {
			key := strings.Join(w.Trace, "; ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Free-running goroutines, under the race detector.
func TestStress(t *testing.T) {
	hx.Check(t, 1500, 20000, "2 to 10 goroutines of 1 to 30 Sends each, 20 to 70% of the units failing; non-trivial: connections were reused", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := fake.Stress{Size: g.Int(1, 5, "size"), Workers: g.Int(2, 10, "workers"), Units: g.Int(1, 30, "units"), Delay: g.Int(0, 2, "delay"), Seed: int64(g.Int(0, 1<<30, "seed")), FailPct: g.Int(20, 70, "failpct")}
		err, stats := s.Run()
		if err != nil {
			t.Fatalf("%+v: %v", s, err)
		}
		if stats["reused"] > 0 {
			key := fmt.Sprintf("%+v", s)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%s => %v", key, stats) })
		}
	})
}

// factory gives out real connections over fake transports.
type factory struct {
	made []*fake.Conn
	prep func(*fake.Conn)
}

func (f *factory) New(context.Context) (netx.Conn, error) {
	fc := &fake.Conn{}
	f.prep(fc)
	f.made = append(f.made, fc)
	return connection.New(fc), nil
}

// Real connections behind the pool: which answers and faults make a unit fail.
func TestConnections(t *testing.T) {
	hx.Check(t, 5000, 80000, "2 to 8 units sent one after another through a pool of real connections over a scripted transport: each unit's messages are accepted, refused, refused as the rest of an expectation block, answered by a fatal error, or the transport fails on setting the deadline, writing or at any byte of the answers; non-trivial: a failed unit with units before and after it", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		var cur func(*fake.Conn)
		f := &factory{prep: func(fc *fake.Conn) { cur(fc) }}
		size := g.Int(1, 3, "size")
		p := fifoch.New(f, size)
		var idle *fake.Conn // the one connection a sequential history keeps
		var desc []string
		failures, last := 0, -1
		n := g.Int(2, 8, "units")
		for u := 0; u < n; u++ {
			x := xtorm.New(128)
			m := g.Int(1, 6, "msgs")
			for i := 0; i < m; i++ {
				if g.Chance(80, "stmt") {
					x.StmtExecute("UPDATE t SET a = ?", u*10+i)
				} else {
					x.Prepare(uint32(i), "SELECT 1")
				}
			}
			rec := &gen.Recorder{}
			x.Send(context.Background(), rec)
			frames, err := wire.Frames(rec.Units[0])
			if err != nil {
				t.Fatalf("%v", err)
			}
			kind := g.Pick(7, "outcome")
			at := g.Pick(m, "at")
			var stream []byte
			var as []*fake.Answer
			for i, fr := range frames {
				refuse := kind == 1 && i == at || kind == 2 && i >= at
				a := fake.NewAnswer(g, byte(fr.Type), refuse, false, "ans")
				if kind == 3 && i == at {
					a.Err = fake.NewErr(g, true, false, "fatal")
					a.Last = a.Err.Frame()
				}
				as = append(as, a)
				stream = append(stream, a.Bytes()...)
			}
			cause := errors.New("cause")
			cut := len(stream)
			var end error
			switch kind {
			case 3:
				end = io.EOF
			case 4:
				cut, end = g.Int(0, len(stream)-1, "cut"), fake.Fails[g.Pick(len(fake.Fails), "fail")]
			}
			how := []string{"accepted", "one refused", "rest refused", "fatal", "cut", "write fails", "deadline fails"}[kind]
			c.Class(how)
			desc = append(desc, how)
			cur = func(fc *fake.Conn) {
				fc.In, fc.End = append([]byte(nil), stream[:cut]...), end
				fc.WriteErr, fc.DeadlineErr = nil, nil
				switch kind {
				case 5:
					fc.WriteErr = cause
				case 6:
					fc.DeadlineErr = cause
				}
			}
			if idle != nil {
				cur(idle)
			}
			before := len(f.made)
			r, err := x.Send(context.Background(), p)
			var used *fake.Conn
			if idle != nil {
				used = idle
				if len(f.made) != before {
					t.Fatalf("%v: unit %d: a new connection although one is idle", desc, u)
				}
			} else {
				if len(f.made) != before+1 {
					t.Fatalf("%v: unit %d: %d connections made, none was idle", desc, u, len(f.made)-before)
				}
				used = f.made[before]
			}
			if kind == 0 {
				if err != nil || len(r) != m || used.Closed != 0 {
					t.Fatalf("%v: unit %d succeeded: responses %v, error %v, closed %d times", desc, u, r, err, used.Closed)
				}
				idle = used
				continue
			}
			failures++
			last = u
			if used.Closed == 0 {
				t.Fatalf("%v: unit %d failed (responses %v, error %v), its connection was not closed", desc, u, r, err)
			}
			idle = nil
			// What the caller sees.
			if kind <= 2 {
				if err != nil || len(r) != m {
					t.Fatalf("%v: unit %d: %d responses, error %v", desc, u, len(r), err)
				}
				for i := range as {
					if e := as[i].Match(r[i]); e != nil {
						t.Fatalf("%v: unit %d, message %d: %v", desc, u, i, e)
					}
				}
			} else if err == nil {
				t.Fatalf("%v: unit %d: no error", desc, u)
			}
			if kind >= 5 && !errors.Is(err, cause) {
				t.Fatalf("%v: unit %d: error %v is not that of the transport", desc, u, err)
			}
		}
		if err := p.Close(context.Background()); err != nil {
			t.Fatalf("%v", err)
		}
		for i, fc := range f.made {
			if fc.Closed == 0 {
				t.Fatalf("%v: connection %d is open after Close", desc, i)
			}
		}
		if failures > 0 && last > 0 && last < n-1 {
			key := strings.Join(desc, ", ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Long histories.
func TestLong(t *testing.T) {
	hx.Check(t, 15, 200, "histories of 500 to 12000 steps on a pool of size 1 to 6, with 1 to 8 Sends at once, and no, few or many units failing; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := fake.NewWorld(g.Int(1, 6, "size"))
		n, width, fail, seed := g.Int(500, 12000, "steps"), g.Int(1, 8, "width"), []int{0, 0, 3, 100}[g.Pick(4, "fail")], g.Int(0, 1<<30, "seed")
		key := fmt.Sprintf("%d steps, %d at once, one in %d fails, seed %d", n, width, fail, seed)
		c.NonTrivial(key)
		c.Sample(func() string { return key })
		if err := w.Long(n, width, fail, int64(seed)); err != nil {
			t.Fatalf("%s: %v", key, err)
		}
	})
}

// One refused message among many.
func TestManyMessages(t *testing.T) {
	hx.Check(t, 1500, 20000, "units of 1 to 400 statements on a real connection from the pool, one of them refused; the connection must be closed and the next unit get another; non-trivial: at least 7 statements", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		n := g.Int(1, 400, "messages")
		at := g.Pick(n, "at")
		if g.Chance(30, "early") {
			at = g.Int(0, min(n-1, 3), "first")
		}
		x := xtorm.New(128)
		for i := 0; i < n; i++ {
			x.StmtExecute("UPDATE t SET a = ?", i)
		}
		e := fake.NewErr(g, false, false, "err")
		ok := wire.Message(wire.SStmtExecuteOk, nil)
		f := &factory{prep: func(fc *fake.Conn) { fc.In = bytes.Repeat(ok, n) }}
		p := fifoch.New(f, 2)
		key := fmt.Sprintf("message %d of %d refused: %v", at, n, e)
		if n >= 7 {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
		if r, err := x.Send(context.Background(), p); err != nil || len(r) != n || f.made[0].Closed != 0 {
			t.Fatalf("%s: the unit before: %d responses, %v", key, len(r), err)
		}
		f.made[0].In = append(append(bytes.Repeat(ok, at), e.Frame()...), bytes.Repeat(ok, n-1-at)...)
		r, err := x.Send(context.Background(), p)
		if err != nil || len(r) != n || len(f.made) != 1 {
			t.Fatalf("%s: %d responses, %v, %d connections", key, len(r), err, len(f.made))
		}
		if err := e.Match(r[at]); err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		if f.made[0].Closed == 0 {
			t.Fatalf("%s: the connection is not closed", key)
		}
		if r, err := x.Send(context.Background(), p); err != nil || len(r) != n || len(f.made) != 2 || f.made[1].Closed != 0 {
			t.Fatalf("%s: the unit after: %d responses, %v, %d connections", key, len(r), err, len(f.made))
		}
		if err := p.Close(context.Background()); err != nil {
			t.Fatalf("%s: %v", key, err)
		}
	})
}

// Every error code makes a unit fail.
func TestCodes(t *testing.T) {
	hx.Rule(t, "a unit of 3 statements on a real connection from the pool, one of them (each in turn) refused with each error code from 0 to 6000 and around powers of two, by each severity; its connection must be closed and the next unit get another; non-trivial: all")
	var codes []uint32
	for c := uint32(0); c <= 6000; c++ {
		codes = append(codes, c)
	}
	for k := uint(13); k < 32; k++ {
		codes = append(codes, 1<<k-1, 1<<k, 1<<k+1)
	}
	codes = append(codes, 1<<32-1)
	x := xtorm.New(128)
	for i := 0; i < 3; i++ {
		x.StmtExecute("UPDATE t SET a = ?", i)
	}
	for _, code := range codes {
		at := int(code) % 3
		hx.Each(t, func(c *hx.Case) {
			e := &fake.SrvErr{Code: code, State: []string{"HY000", "40001", "23000", "00000"}[code%4], Msg: "text", NoSev: code%5 == 0}
			key := fmt.Sprintf("%v at %d", e, at)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
			ok := bytes.Repeat(wire.Message(wire.SStmtExecuteOk, nil), 3)
			var stream []byte
			for i := 0; i < 3; i++ {
				if i == at {
					stream = append(stream, e.Frame()...)
				} else {
					stream = append(stream, wire.Message(wire.SStmtExecuteOk, nil)...)
				}
			}
			f := &factory{prep: func(fc *fake.Conn) { fc.In = append([]byte(nil), ok...) }}
			p := fifoch.New(f, 2)
			if r, err := x.Send(context.Background(), p); err != nil || len(r) != 3 || f.made[0].Closed != 0 {
				t.Fatalf("%s: the unit before: %v, %v", key, r, err)
			}
			f.made[0].In = stream
			r, err := x.Send(context.Background(), p)
			if err != nil || len(r) != 3 {
				t.Fatalf("%s: %v, %v", key, r, err)
			}
			if err := e.Match(r[at]); err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			if f.made[0].Closed == 0 {
				t.Fatalf("%s: the connection is not closed", key)
			}
			if r, err := x.Send(context.Background(), p); err != nil || len(r) != 3 || len(f.made) != 2 || f.made[1].Closed != 0 {
				t.Fatalf("%s: the unit after: %v, %v, %d connections", key, r, err, len(f.made))
			}
			if err := p.Close(context.Background()); err != nil {
				t.Fatalf("%s: %v", key, err)
			}
		})
	}
}
