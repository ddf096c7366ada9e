package c13

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
)

// A leaked socket must not be closed by the collector before the server notices the leak.
func noGC(t *testing.T) {
	old := debug.SetGCPercent(-1)
	t.Cleanup(func() { debug.SetGCPercent(old) })
}

// use sends a unit that the server answers at once.
func use(x *xtorm.XPipe, conn netx.Conn) ([]netx.Response, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	r, err := x.Send(ctx, conn)
	if err != nil {
		conn.Close()
	}
	return r, err
}

// dialledAgain tells whether the client was accepted on a further connection.
func dialledAgain(srv *fake.Server) bool {
	for _, m := range srv.More() {
		if m.AcceptSent {
			return true
		}
	}
	return false
}

// attempt connects and checks the outcome.
func attempt(s *fake.Scenario) (outcome string, err error) {
	srv := fake.Start(s)
	defer srv.Stop()
	cn, err := s.Connector(srv.Addr)
	if err != nil {
		return "", err
	}
	ctx, cancel := s.Context()
	defer cancel()
	var conn netx.Conn
	var e error
	if p := func() (p interface{}) {
		defer func() { p = recover() }()
		conn, e = cn.New(ctx)
		return nil
	}(); p != nil {
		return "", fmt.Errorf("New panics: %v", p)
	}
	if (conn == nil) != (e != nil) {
		return "", fmt.Errorf("New returned connection %v and error %v", conn, e)
	}
	if conn != nil {
		outcome = "connected"
		x := xtorm.New(64)
		x.StmtExecute("SELECT 1")
		x.StmtExecute("SELECT ?", 2)
		r, err := use(x, conn)
		if !s.Accepts {
			conn.Close()
			replies := srv.Wait().Replies
			if !dialledAgain(srv) {
				return "", fmt.Errorf("New returned a connection although the server did not accept authentication (%v)", replies)
			}
		}
		if err != nil || len(r) != 2 || r[0] != nil || r[1] != nil {
			return "", fmt.Errorf("the new connection cannot be used: %v, %v", r, err)
		}
		conn.Close()
	} else {
		outcome = "error"
		if s.Accepts && !s.MayFail {
			return "", fmt.Errorf("the server accepted authentication, but New fails: %v", e)
		}
	}
	srv.Stop()
	got := srv.Wait()
	if !got.Closed {
		return "", fmt.Errorf("New returned (%v), but the socket it dialled is still open 12 s later", e)
	}
	for _, m := range srv.More() {
		if !m.Closed {
			return "", fmt.Errorf("New returned (%v), but a further socket it dialled is still open 12 s later", e)
		}
	}
	if first, ok := got.FirstMech(); ok && first != s.MechName() {
		return "", fmt.Errorf("New authenticates with %s, not with %s as selected", first, s.MechName())
	}
	if conn != nil && !got.AcceptSent && !dialledAgain(srv) {
		return "", fmt.Errorf("New returned a connection before the server accepted authentication")
	}
	return outcome, nil
}

func TestScenarios(t *testing.T) {
	noGC(t)
	n := 0
	hx.Check(t, 3000, 25000, "connection attempts over TCP, TLS (trusted, untrusted, misnamed or expired certificate, verified or not) and unix sockets, with each mechanism, against servers that refuse, deny, disconnect, inject, stall or accept at any step; non-trivial: all but plain acceptance without notices", func(t *rapid.T, c *hx.Case) {
		if n++; n%100 == 0 {
			runtime.GC()
		}
		g := gen.New(t, false)
		s := fake.NewScenario(g)
		c.Class(s.Network)
		c.ClassIf(s.TLS, "TLS")
		c.ClassIf(s.HandshakeFails(), "handshake fails")
		c.ClassIf(s.Retry, "retry due")
		c.ClassIf(s.NeedsCtx, "stalls")
		outcome, err := attempt(s)
		if err != nil {
			t.Fatalf("%v: %v", s, err)
		}
		c.Class(outcome)
		if outcome == "error" || s.Retry || s.TLS {
			c.NonTrivial(s.String())
			c.Sample(func() string { return s.String() + " => " + outcome })
		}
	})
}

// Several connections from one connector at the same time, each with its own fate.
func TestConcurrent(t *testing.T) {
	noGC(t)
	n := 0
	hx.Check(t, 400, 4000, "one connector dials 4 times at once, the server treats each connection differently; non-trivial: some of both", func(t *rapid.T, c *hx.Case) {
		if n++; n%20 == 0 {
			runtime.GC()
		}
		g := gen.New(t, false)
		var scs []*fake.Scenario
		ok, may := 0, 0
		app := fake.NewScenario(g)
		for i := 0; i < 4; i++ {
			s := app
			if i > 0 {
				s = fake.ScenarioFor(g, app)
			}
			scs = append(scs, s)
			if s.Accepts {
				ok++
				if s.MayFail {
					may++
				}
			}
		}
		srv := fake.Start(scs...)
		defer srv.Stop()
		cn, err := scs[0].Connector(srv.Addr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		stall := false
		for _, s := range scs {
			stall = stall || s.NeedsCtx
		}
		errs := make([]error, len(scs))
		conns := make([]netx.Conn, len(scs))
		var wg sync.WaitGroup
		for i := range scs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[i] = fmt.Errorf("panic: %v", p)
					}
				}()
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				if stall {
					ctx, cancel = context.WithTimeout(context.Background(), 250*time.Millisecond)
				}
				defer cancel()
				var err error
				conns[i], err = cn.New(ctx)
				if (conns[i] == nil) != (err != nil) {
					errs[i] = fmt.Errorf("New returned connection %v and error %v", conns[i], err)
				}
			}()
		}
		wg.Wait()
		made := 0
		for i, conn := range conns {
			if errs[i] != nil {
				t.Fatalf("%v: %v", scs, errs[i])
			}
			if conn == nil {
				continue
			}
			made++
			x := xtorm.New(64)
			x.StmtExecute("SELECT 1")
			if r, err := use(x, conn); err != nil || len(r) != 1 || r[0] != nil {
				t.Fatalf("%v: a new connection cannot be used: %v, %v", scs, r, err)
			}
			conn.Close()
		}
		if made > ok || (made < ok-may && !stall) {
			t.Fatalf("%v: %d connections for %d accepted ones", scs, made, ok)
		}
		srv.Stop()
		for _, got := range srv.WaitAll() {
			if !got.Closed {
				t.Fatalf("%v: a socket is still open 12 s later (%v)", scs, got.Replies)
			}
		}
		if ok > 0 && ok < len(scs) {
			key := fmt.Sprint(scs)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Nothing to connect to.
func TestNoServer(t *testing.T) {
	hx.Rule(t, "dialling a closed TCP port, a missing and a stale unix socket, an unknown network, and with a cancelled context; exhaustive")
	dir := t.TempDir()
	stale := filepath.Join(dir, "s")
	l, err := net.Listen("unix", stale)
	if err != nil {
		hx.HarnessError("%v", err)
	}
	l.(*net.UnixListener).SetUnlinkOnClose(false)
	l.Close()
	tl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.HarnessError("%v", err)
	}
	addr := tl.Addr().String()
	tl.Close()
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	for _, x := range []struct {
		net, addr string
		ctx       context.Context
	}{{"tcp", addr, context.Background()}, {"unix", filepath.Join(dir, "none"), context.Background()}, {"unix", stale, context.Background()},
		{"nonsense", addr, context.Background()}, {"tcp", addr, cancelled}} {
		hx.Each(t, func(c *hx.Case) {
			c.NonTrivial(x.net + x.addr)
			c.Sample(func() string { return fmt.Sprint(x.net, " ", x.addr, " ", x.ctx) })
			cn, err := connector.New(x.net, x.addr, connector.WithUserPassword("u", "p"))
			if err != nil {
				return
			}
			conn, err := cn.New(x.ctx)
			if err == nil || conn != nil {
				t.Fatalf("%v: New returned connection %v and error %v", x, conn, err)
			}
		})
	}
	os.Remove(stale)
}
