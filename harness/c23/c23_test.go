package c23

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// recognised: x, what the caller got, shows exactly the server's error e.
func recognised(x interface{}, e *fake.SrvErr) error {
	if err := e.Match(x); err != nil {
		return err
	}
	err := x.(error)
	text := err.Error()
	sev := "ERROR"
	if e.Fatal {
		sev = "FATAL"
	}
	for what, s := range map[string]string{"code": fmt.Sprint(e.Code), "state": e.State, "message": e.Msg, "severity": sev} {
		if !strings.Contains(text, s) {
			return fmt.Errorf("%v: the text %.200q does not show the %s %.200q", e, text, what, s)
		}
	}
	return nil
}

type one struct{ c netx.Conn }

func (o one) New(context.Context) (netx.Conn, error) { return o.c, nil }

// Errors as they reach the caller, alone and among others.
func TestErrors(t *testing.T) {
	hx.Check(t, 12000, 150000, "1 to 6 statements, some refused with errors of any code, state, text and encoding, the last of them fatal or not, sent on a connection or through a pool; every error inspected after the Send and again after another; non-trivial: 2 or more different errors", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		fc := &fake.Conn{}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		n := g.Int(1, 6, "n")
		var unit []byte
		es := make([]*fake.SrvErr, n)
		fatal := g.Chance(40, "fatal")
		distinct := map[string]bool{}
		for i := range es {
			unit = append(unit, wire.Message(wire.StmtExecute, []byte{byte(i)})...)
			if g.Chance(60, "refuse") || fatal && i == n-1 {
				es[i] = fake.NewErr(g, fatal && i == n-1, g.Chance(20, "big"), "err")
				if g.Chance(60, "known") {
					es[i].Code = codes[g.Pick(len(codes), "code")].num
				}
				distinct[fmt.Sprint(es[i])] = true
				fc.In = append(fc.In, es[i].Frame()...)
			} else {
				fc.In = append(fc.In, wire.Message(wire.SStmtExecuteOk, nil)...)
			}
		}
		fc.End = io.EOF
		conn := connection.New(fc)
		var s netx.Sender = conn
		if g.Chance(40, "pool") {
			s = fifoch.New(one{conn}, 1)
			c.Class("through a pool")
		}
		key := fmt.Sprint(es)
		if len(distinct) >= 2 {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
		c.ClassIf(fatal, "fatal")
		r, err := s.Send(context.Background(), unit)
		look := func(when string) {
			if (err != nil) != fatal || len(r) != n {
				t.Fatalf("%s %s: %d responses, error %v", key, when, len(r), err)
			}
			for i, e := range es {
				if e == nil {
					if r[i] != nil {
						t.Fatalf("%s %s: message %d was accepted: %v", key, when, i, r[i])
					}
					continue
				}
				if x := recognised(r[i], e); x != nil {
					t.Fatalf("%s %s: message %d: %v", key, when, i, x)
				}
			}
			if fatal {
				if x := recognised(err, es[n-1]); x != nil {
					t.Fatalf("%s %s: the unit's error: %v", key, when, x)
				}
			}
		}
		look("at once")
		fc.In = (&fake.SrvErr{Code: 9999, State: "ZZZZZ", Msg: strings.Repeat("other ", g.Int(1, 900, "other"))}).Frame()
		conn.Send(context.Background(), wire.Message(wire.StmtExecute, nil))
		look("after another Send")
	})
}

// Constants.
func TestCodes(t *testing.T) {
	hx.Rule(t, "every exported error code: the constant is the server's number, no other has it, and a refusal with that number is recognised by it, with either severity; exhaustive; non-trivial: all")
	hx.Exhaustive(t)
	seen := map[uint32]string{}
	for _, k := range codes {
		hx.Each(t, func(c *hx.Case) {
			c.NonTrivial(k.name)
			c.Sample(func() string { return fmt.Sprintf("%s = %d", k.name, k.num) })
			if k.got != k.num {
				t.Fatalf("%s is %d, the server's number is %d", k.name, k.got, k.num)
			}
			if o, ok := seen[k.got]; ok {
				t.Fatalf("%s and %s are both %d", k.name, o, k.got)
			}
			seen[k.got] = k.name
			for sev := 0; sev < 3; sev++ {
				e := &fake.SrvErr{Code: k.num, State: "HY000", Msg: k.name, Fatal: sev == 1, NoSev: sev == 2}
				fc := &fake.Conn{In: e.Frame(), End: io.EOF}
				r, err := connection.New(fc).Send(context.Background(), wire.Message(wire.StmtExecute, nil))
				if len(r) != 1 || (err != nil) != e.Fatal {
					t.Fatalf("%v: %v, %v", e, r, err)
				}
				if x := recognised(r[0], e); x != nil {
					t.Fatalf("%v", x)
				}
				var m *connection.MySqlXError
				if !errors.As(r[0].(error), &m) || m.Code != k.got {
					t.Fatalf("%v is not recognised by %s", e, k.name)
				}
			}
		})
	}
}
