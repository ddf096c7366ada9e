package c23

import (
	"context"
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// Errors the server reports while a connection is being made.
func TestConnecting(t *testing.T) {
	hx.Check(t, 1200, 12000, "connection attempts over TCP, TLS and unix sockets with each mechanism that the server refuses with an error of any code, state and text, fatal or not, on being asked for TLS, at the start of authentication or after the challenge, where a retry is due refusing that with another error; made directly or by a pool; non-trivial: all but a refusal at the start of authentication over plain TCP", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := &fake.Scenario{Denied: -1, User: "user", Password: "password", DB: "db", Challenge: gen.Pattern(20, 'a', 1)}
		s.Network = []string{"tcp", "tcp", "unix"}[g.Pick(3, "net")]
		s.TLS = g.Chance(60, "tls")
		s.Mech = g.Pick(4, "mech")
		s.Rot = g.Pick(3, "rot")
		var sent []*fake.SrvErr
		refuse := func(what string) *fake.SrvErr {
			e := fake.NewErr(g, g.Chance(30, "fatal"), g.Chance(20, "big"), "err")
			switch g.Pick(3, "code") {
			case 0:
				e.Code = 1045
			case 1:
				e.Code = codes[g.Pick(len(codes), "known")].num
			}
			sent = append(sent, e)
			b := e.Frame()
			if g.Chance(30, "notice") {
				b = append(fake.Intermediate(g, wire.SNotice, true, "notice"), b...)
			}
			s.Acts = append(s.Acts, fake.Act{Name: what + ": " + e.String(), Reply: b, Then: fake.Go})
			return e
		}
		secure := s.Network == "unix"
		step := g.Pick(3, "step")
		if s.Network == "tcp" && s.TLS && step > 0 {
			s.Acts = append(s.Acts, fake.Act{Name: "TLS enabled", Reply: wire.Message(wire.SOk, nil), Then: fake.UseTLS})
			secure = true
		}
		switch {
		case s.Network == "tcp" && s.TLS && step == 0:
			refuse("TLS refused")
			c.Class("asked for TLS")
		default:
			if step == 2 && s.Mech != 3 {
				s.Acts = append(s.Acts, fake.Act{Name: "challenge", Reply: wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Then: fake.Go})
				c.Class("after the challenge")
			} else {
				c.Class("at the start of authentication")
			}
			if e := refuse("denied"); secure && e.Code == 1045 {
				refuse("retry denied")
				c.Class("retry")
			}
		}
		srv := fake.Start(s)
		defer srv.Stop()
		cn, err := s.Connector(srv.Addr)
		if err != nil {
			t.Fatalf("%v: %v", s, err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		pooled := g.Chance(50, "pool")
		if pooled {
			c.Class("through a pool")
			x := xtorm.New(0)
			x.StmtExecute("SELECT 1")
			p := fifoch.New(cn, 1)
			defer p.Close(ctx)
			_, err = x.Send(ctx, p)
		} else {
			conn, e := cn.New(ctx)
			if err = e; conn != nil {
				conn.Close()
			}
		}
		key := fmt.Sprint(s, pooled)
		if s.TLS || secure || step == 2 {
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
		if err == nil {
			t.Fatalf("%s: no error", key)
		}
		// When the retry is refused as well, either of the two is reported.
		bad := recognised(err, sent[0])
		for _, e := range sent[1:] {
			if bad != nil && recognised(err, e) == nil {
				bad = nil
			}
		}
		if bad != nil {
			t.Fatalf("%s: %v", key, bad)
		}
	})
}
