package c11

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

type creds struct{ db, user, pass string }

func (c creds) UserName() string { return c.user }
func (c creds) Password() string { return c.pass }
func (c creds) Database() string { return c.db }

func (c creds) String() string {
	return fmt.Sprintf("db %q, user %q, password of %d bytes", fake.Clip(c.db), fake.Clip(c.user), len(c.pass))
}

var names = []string{"MYSQL41", "SHA256_MEMORY", "PLAIN"}

func starter(k int) authentication.Starter {
	return []authentication.Starter{mysql41.New(), sha256.New(), plain.New()}[k]
}

func text(g *gen.G, label string, zero bool) string {
	n := 0
	switch k := g.Int(0, 9, label+".k"); {
	case k < 5:
		n = g.Int(0, 24, label+".n")
	case k < 6:
		n = []int{19, 20, 21, 31, 32, 33, 40, 41, 55, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257}[g.Pick(22, label+".b")]
	case k < 8:
		n = g.Int(25, 140, label+".n")
	default:
		n = g.Int(0, 20000, label+".n")
	}
	b := g.BytesN(n, label)
	if !zero {
		for i := range b {
			if b[i] == 0 {
				b[i] = 'z'
			}
		}
	}
	return string(b)
}

func draw(g *gen.G) creds {
	c := creds{text(g, "db", false), text(g, "user", false), text(g, "pass", true)}
	switch g.Int(0, 24, "same") {
	case 22:
		c.db = c.user
	case 23:
		c.pass = c.user
	case 24: // as it is stored by the server
		c.pass = "*6BB4837EB74329105EE4568DDA7DC67ED2CA2AD9"
	}
	return c
}

func challenge(g *gen.G) []byte {
	n := 20
	if g.Chance(25, "chlen") {
		n = g.Int(0, 300, "chn")
	}
	if n == 20 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.Int(0, 255, "ch"))
		}
		return b
	}
	return g.BytesN(n, "ch")
}

// scratch draws the buffer given to Start and Continue.
func scratch(g *gen.G) []byte {
	n := []int{0, 0, 1, 16, 64, 128, 300, 4096}[g.Pick(8, "cap")]
	b := gen.Pattern(n, byte(g.Int(0, 255, "fill")), 1)
	return b[:0]
}

func decode(b []byte, typ int) (wire.Msg, error) {
	fr, err := wire.Frames(b)
	if err != nil {
		return wire.Msg{}, err
	}
	if len(fr) != 1 || fr[0].Type != typ {
		return wire.Msg{}, fmt.Errorf("not one message of type %d: %v", typ, fr)
	}
	return wire.Decode(fr[0])
}

// verify checks the first message (and for PLAIN all of the proof).
func verifyStart(k int, b []byte, a *fake.Account) error {
	m, err := decode(b, wire.AuthenticateStart)
	if err != nil {
		return err
	}
	if m.Mech != names[k] {
		return fmt.Errorf("names mechanism %q", m.Mech)
	}
	if k == 2 {
		return a.Plain(m.AuthData)
	}
	if m.AuthData != "" {
		return fmt.Errorf("sends data before there is a challenge")
	}
	return nil
}

func verifyContinue(k int, b, ch []byte, a *fake.Account) error {
	m, err := decode(b, wire.AuthenticateContinue)
	if err != nil {
		return err
	}
	if k == 0 {
		return a.MySQL41(ch, m.AuthData)
	}
	return a.SHA256(ch, m.AuthData)
}

// The mechanisms, with any scratch buffer, reused for several accounts.
func TestMechanisms(t *testing.T) {
	hx.Check(t, 12000, 150000, "1 to 3 exchanges with one mechanism object, database, user and password of 0 to 20000 bytes, challenges of 20 (or 0 to 300) bytes, scratch buffers of any capacity and content; non-trivial: non-empty password, challenge-response mechanism", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		k := g.Pick(3, "mech")
		c.Class(names[k])
		st := starter(k)
		for i, n := 0, g.Int(1, 3, "exchanges"); i < n; i++ {
			cr := draw(g)
			ch := challenge(g)
			buf := scratch(g)
			a := fake.NewAccount(cr.db, cr.user, cr.pass)
			if err := verifyStart(k, st.Start(buf, cr), a); err != nil {
				t.Fatalf("%s for %v, scratch %d: Start: %v", names[k], cr, cap(buf), err)
			}
			c.ClassIf(cr.pass == "", "empty password")
			if k == 2 {
				continue
			}
			sc, ok := st.(authentication.StartContinuer)
			if !ok {
				t.Fatalf("%s cannot answer a challenge", names[k])
			}
			buf = scratch(g)
			before := append([]byte(nil), ch...)
			p := sc.Continue(buf, cr, ch)
			if !bytes.Equal(before, ch) {
				t.Fatalf("%s: the challenge was changed", names[k])
			}
			if err := verifyContinue(k, p, ch, a); err != nil {
				t.Fatalf("%s for %v, challenge %x, scratch %d: Continue: %v", names[k], cr, ch, cap(buf), err)
			}
			if cr.pass != "" {
				// A server with another password, or that sent another challenge, refuses.
				if verifyContinue(k, p, ch, fake.NewAccount(cr.db, cr.user, cr.pass+"x")) == nil ||
					verifyContinue(k, p, append([]byte{1}, ch...), a) == nil {
					t.Fatalf("%s for %v: proof verifies for another password or challenge", names[k], cr)
				}
				key := fmt.Sprintf("%d %v %x", k, cr, ch)
				c.NonTrivial(key)
				c.Sample(func() string { return fmt.Sprintf("%s for %v, challenge %x, scratch %d", names[k], cr, ch, cap(buf)) })
			}
		}
	})
}

// The exchange as the connection makes it, seen on the wire.
func TestExchange(t *testing.T) {
	hx.Check(t, 8000, 100000, "complete exchanges over a connection, with notices around the challenge and the stream split at drawn points; non-trivial: non-empty password, challenge-response mechanism", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		k := g.Pick(3, "mech")
		cr := draw(g)
		ch := challenge(g)
		a := fake.NewAccount(cr.db, cr.user, cr.pass)
		fc := &fake.Conn{}
		notice := func(label string) {
			for i, n := 0, g.Int(0, 2, label); i < n; i++ {
				fc.In = append(fc.In, fake.Intermediate(g, wire.SNotice, true, label)...)
			}
		}
		notice("n1")
		if k < 2 {
			fc.In = append(fc.In, wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(ch))...)
			notice("n2")
		}
		fc.In = append(fc.In, wire.Message(wire.SAuthenticateOk, nil)...)
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		if err := connection.New(fc).Authenticate(context.Background(), cr, starter(k)); err != nil || fc.Starved {
			t.Fatalf("%s for %v: %v", names[k], cr, err)
		}
		w := bytes.Join(fc.Writes(), nil)
		fr, err := wire.Frames(w)
		if err != nil {
			t.Fatalf("%v", err)
		}
		want := 2
		if k == 2 {
			want = 1
		}
		if len(fr) != want {
			t.Fatalf("%s: %d messages written", names[k], len(fr))
		}
		n := 5 + len(fr[0].Payload)
		if err := verifyStart(k, w[:n], a); err != nil {
			t.Fatalf("%s for %v: %v", names[k], cr, err)
		}
		if k < 2 {
			if err := verifyContinue(k, w[n:], ch, a); err != nil {
				t.Fatalf("%s for %v, challenge %x: %v", names[k], cr, ch, err)
			}
		}
		c.Class(names[k])
		if k < 2 && cr.pass != "" {
			key := fmt.Sprintf("%d %v %x", k, cr, ch)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%s for %v, challenge %x", names[k], cr, ch) })
		}
	})
}

// One mechanism object shared by connections that authenticate at the same time, as a
// connector does.
func TestShared(t *testing.T) {
	hx.Check(t, 150, 2500, "6 goroutines make 20 exchanges each with one shared mechanism object and accounts of their own; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		k := g.Pick(3, "mech")
		st := starter(k)
		var crs []creds
		for i := 0; i < 6; i++ {
			crs = append(crs, creds{"db" + fmt.Sprint(i), text(g, "user", false), text(g, "pass", true)})
		}
		key := fmt.Sprint(k, crs)
		c.NonTrivial(key)
		c.Sample(func() string { return names[k] + ": " + key })
		errs := make([]error, len(crs))
		var wg sync.WaitGroup
		for i := range crs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[i] = fmt.Errorf("panic: %v", p)
					}
				}()
				a := fake.NewAccount(crs[i].db, crs[i].user, crs[i].pass)
				for j := 0; j < 20 && errs[i] == nil; j++ {
					if errs[i] = verifyStart(k, st.Start(nil, crs[i]), a); errs[i] != nil || k == 2 {
						continue
					}
					ch := gen.Pattern(20, byte(i*20+j), 7)
					errs[i] = verifyContinue(k, st.(authentication.StartContinuer).Continue(nil, crs[i], ch), ch, a)
				}
			}(i)
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("%s for %v, shared: %v", names[k], crs[i], err)
			}
		}
	})
}

// What a connector sends, over TCP, TLS and unix sockets, several connections at once,
// including the PLAIN retry after denied access.
func TestConnector(t *testing.T) {
	hx.Check(t, 600, 8000, "1 to 3 connections made at once by one connector with drawn credentials, every authentication message verified by the server; non-trivial: at least one proof verified", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		app := fake.NewScenario(g)
		app.DB, app.User = text(g, "db", false), text(g, "user", false)
		if g.Chance(60, "otherpass") {
			app.Password = text(g, "pass", true)
		}
		var scs []*fake.Scenario
		for i, n := 0, g.Int(1, 3, "n"); i < n; i++ {
			scs = append(scs, fake.ScenarioFor(g, app))
		}
		srv := fake.Start(scs...)
		defer srv.Stop()
		cn, err := scs[0].Connector(srv.Addr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		stall := false
		for _, s := range scs {
			stall = stall || s.NeedsCtx
		}
		var wg sync.WaitGroup
		for range scs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				limit := 60 * time.Second
				if stall {
					limit = 150 * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				defer cancel()
				if conn, err := cn.New(ctx); err == nil {
					conn.Close()
				}
			}()
		}
		wg.Wait()
		srv.Stop()
		a := fake.NewAccount(app.DB, app.User, app.Password)
		proofs := 0
		for i, got := range srv.WaitAll() {
			mech := ""
			if first, ok := got.FirstMech(); ok && first != app.MechName() {
				t.Fatalf("%v: authenticates with %s, not with %s as selected", scs[i], first, app.MechName())
			}
			for _, f := range append(got.Clear, got.Secret...) {
				if f.Type != wire.AuthenticateStart && f.Type != wire.AuthenticateContinue {
					continue
				}
				m, err := wire.Decode(f)
				if err == nil && f.Type == wire.AuthenticateStart {
					mech = m.Mech
					if mech == "PLAIN" {
						err = a.Plain(m.AuthData)
						proofs++
					}
				} else if err == nil {
					proofs++
					switch mech {
					case "MYSQL41":
						err = a.MySQL41(scs[i].Challenge, m.AuthData)
					case "SHA256_MEMORY":
						err = a.SHA256(scs[i].Challenge, m.AuthData)
					default:
						err = fmt.Errorf("answers a challenge for mechanism %q", mech)
					}
				}
				if err != nil {
					t.Fatalf("%v: %s: %v", scs[i], mech, err)
				}
			}
		}
		if proofs > 0 {
			key := fmt.Sprint(scs)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
		c.ClassIf(proofs > 1, "2+ proofs")
	})
}
