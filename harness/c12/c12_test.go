package c12

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// confidential checks everything the client wrote.
func confidential(s *fake.Scenario, got *fake.Received, secure bool) error {
	for i, f := range append(append([]wire.Frame(nil), got.Clear...), got.Secret...) {
		m, err := wire.Decode(f)
		if err != nil {
			return fmt.Errorf("message %d: %v", i, err)
		}
		overTLS := i >= len(got.Clear)
		secure := overTLS || s.Network == "unix"
		if f.Type == wire.AuthenticateStart && m.Mech == "PLAIN" && s.Mech != 3 {
			if !secure {
				return fmt.Errorf("message %d: PLAIN over plain TCP, the application did not choose it", i)
			}
			if s.Denied < 0 || i != s.Denied+1 {
				return fmt.Errorf("message %d: PLAIN without access having been denied before (%v)", i, got.Replies)
			}
		}
		if !secure && s.TLS && f.Type != wire.CapabilitiesSet {
			return fmt.Errorf("message %d of type %d in clear, although TLS was asked for", i, f.Type)
		}
		if !secure && s.TLS && (len(m.Caps) != 1 || m.Caps[0].Name != "tls") {
			return fmt.Errorf("message %d: not just the request to enable TLS: %v", i, m)
		}
	}
	if s.Network == "tcp" && (s.TLS || s.Mech != 3) && bytes.Contains(got.Raw, []byte(s.Password)) {
		return fmt.Errorf("the password is in clear among the %d bytes written to a TCP connection", len(got.Raw))
	}
	if s.Network == "tcp" && s.TLS {
		rest := got.Raw
		if len(got.Clear) > 1 {
			return fmt.Errorf("%d messages in clear, although TLS was asked for", len(got.Clear))
		}
		if len(got.Clear) == 1 {
			rest = rest[5+len(got.Clear[0].Payload):]
		}
		// Nothing but TLS records from here on.
		for len(rest) >= 5 {
			if rest[0] < 20 || rest[0] > 23 || rest[1] != 3 {
				return fmt.Errorf("after the request to enable TLS: %x..., no TLS record", rest[:5])
			}
			n := 5 + int(rest[3])<<8 + int(rest[4])
			if n > len(rest) {
				n = len(rest)
			}
			rest = rest[n:]
		}
		if len(got.Secret) > 0 && s.HandshakeFails() {
			return fmt.Errorf("%d messages sent to a server that failed verification", len(got.Secret))
		}
	}
	if secure && s.Network == "tcp" && !s.TLS {
		return fmt.Errorf("a plain TCP connection is reported as secure")
	}
	return nil
}

// further checks the connections made in the same attempt beyond the first.
func further(s *fake.Scenario, srv *fake.Server) error {
	for i, got := range srv.More() {
		if s.Denied >= 0 && s.Network == "unix" {
			continue // the retry may use a connection of its own
		}
		o := *s
		o.Denied = -1
		if err := confidential(&o, got, false); err != nil {
			return fmt.Errorf("connection %d of the attempt: %v", i+2, err)
		}
	}
	return nil
}

// Connection attempts against servers that answer anything.
func TestScenarios(t *testing.T) {
	hx.Check(t, 3000, 25000, "connection attempts over TCP, TLS (trusted, untrusted, misnamed or expired certificate, verified or not) and unix sockets, with each mechanism, against servers that refuse, deny, disconnect, inject, stall or accept at any step; non-trivial: the server refuses or denies something, or the handshake cannot succeed", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := fake.NewScenario(g)
		srv := fake.Start(s)
		defer srv.Stop()
		cn, err := s.Connector(srv.Addr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		ctx, cancel := s.Context()
		conn, err := cn.New(ctx)
		cancel()
		secure := false
		if conn != nil {
			secure = conn.IsSecure()
			conn.Close()
		}
		srv.Stop()
		got := srv.Wait()
		if e := confidential(s, got, secure); e != nil {
			t.Fatalf("%v: %v (New: %v)", s, e, err)
		}
		if e := further(s, srv); e != nil {
			t.Fatalf("%v: %v (New: %v)", s, e, err)
		}
		c.Class(s.Network)
		c.ClassIf(s.TLS, "TLS")
		c.ClassIf(s.HandshakeFails(), "handshake fails")
		c.ClassIf(s.Denied >= 0, "access denied")
		c.ClassIf(conn != nil, "connected")
		if s.Denied >= 0 || conn == nil {
			c.NonTrivial(s.String())
			c.Sample(s.String)
		}
	})
}

// Every combination of transport, mechanism and the server's answer to the last step.
func TestEnumerated(t *testing.T) {
	hx.Rule(t, "{tcp, tcp+TLS, tcp+TLS refused (verifying or not), tcp+TLS untrusted, tcp+TLS with each of 5 configurations that refuse the server, unix, unix+TLS} x 4 mechanisms x {accepted, access denied, access denied fatally, another error with each of 12 codes, disconnect} at the start or after the challenge; exhaustive")
	hx.Exhaustive(t)
	codes := []uint32{1044, 1045, 1046, 1049, 1064, 1251, 1698, 3118, 3159, 1040, 5000, 5001}
	for tr := 0; tr < 6+fake.NConf; tr++ {
		for mech := 0; mech < 4; mech++ {
			for end := 0; end < 4+len(codes); end++ {
				for early := 0; early < 2; early++ {
					if early == 1 && (mech == 3 || end == 0) {
						continue
					}
					hx.Each(t, func(c *hx.Case) {
						s := &fake.Scenario{Network: "tcp", Mech: mech, DB: "db", User: "user", Password: "Pw!correct-horse-battery-staple", Denied: -1, Challenge: gen.Pattern(20, 1, 3)}
						tr := tr
						switch {
						case tr == 6:
							s.SkipVerify = true
							tr = 2
						case tr > 6:
							s.Conf, s.SkipVerify = tr-6, end%2 == 1
							tr = 1
						}
						if tr >= 4 {
							s.Network = "unix"
						}
						s.TLS = tr == 1 || tr == 2 || tr == 3 || tr == 5
						ok := fake.Act{Name: "accepts", Reply: wire.Message(wire.SAuthenticateOk, nil), Then: fake.Accept}
						if tr == 1 || tr == 3 {
							s.Acts = append(s.Acts, fake.Act{Name: "TLS", Reply: wire.Message(wire.SOk, nil), Then: fake.UseTLS})
						}
						if tr == 3 {
							s.Cert = fake.CertUntrusted
						}
						if tr == 2 {
							code := uint32(5001)
							if end >= 4 {
								code = codes[end-4]
							}
							s.Acts = append(s.Acts, fake.Act{Name: "TLS refused", Reply: (&fake.SrvErr{Code: code, State: "HY000", Msg: "no", Fatal: end == 2}).Frame(), Then: fake.Go})
						}
						if mech != 3 && early == 0 {
							s.Acts = append(s.Acts, fake.Act{Name: "challenge", Reply: wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Then: fake.Go})
						}
						e := &fake.SrvErr{Code: 1045, State: "28000", Msg: "Access denied"}
						switch {
						case end == 0:
							s.Acts = append(s.Acts, ok)
						case end == 1 || end == 2:
							e.Fatal = end == 2
							if tr != 2 && s.Conf == 0 {
								s.Denied = len(s.Acts)
							}
							s.Acts = append(s.Acts, fake.Act{Name: "denied", Reply: e.Frame(), Then: fake.Go})
						case end == 3:
							s.Acts = append(s.Acts, fake.Act{Name: "disconnect", Then: fake.Shut})
						default:
							e.Code = codes[end-4]
							if e.Code == 1045 && tr != 2 && s.Conf == 0 {
								s.Denied = len(s.Acts)
							}
							s.Acts = append(s.Acts, fake.Act{Name: "refused", Reply: e.Frame(), Then: fake.Go})
						}
						for i := 0; i < 3; i++ {
							s.Acts = append(s.Acts, ok)
						}
						srv := fake.Start(s)
						defer srv.Stop()
						cn, err := s.Connector(srv.Addr)
						if err != nil {
							t.Fatalf("%v", err)
						}
						ctx, cancel := s.Context()
						defer cancel()
						conn, err := cn.New(ctx)
						secure := false
						if conn != nil {
							secure = conn.IsSecure()
							conn.Close()
						}
						srv.Stop()
						got := srv.Wait()
						if e := confidential(s, got, secure); e != nil {
							t.Fatalf("%v: %v (New: %v)", s, e, err)
						}
						if e := further(s, srv); e != nil {
							t.Fatalf("%v: %v (New: %v)", s, e, err)
						}
						c.NonTrivial(fmt.Sprint(tr, mech, end, early))
						c.Sample(s.String)
					})
				}
			}
		}
	}
}

// A refusal of TLS, with any code, ends the attempt.
func TestRefusals(t *testing.T) {
	hx.Rule(t, "over TCP, the request to enable TLS refused with each error code from 0 to 20, 1000 to 1100, 1250 to 1260, 3150 to 3170, 5000 to 5030, 5100 to 5200 or answered by a disconnect, fatally or not, verifying or not, with each mechanism: nothing else is written; non-trivial: all")
	for _, r := range [][2]uint32{{0, 20}, {1000, 1100}, {1250, 1260}, {3150, 3170}, {5000, 5030}, {5100, 5200}} {
		for code := r[0]; code <= r[1]; code++ {
			hx.Each(t, func(c *hx.Case) {
				s := &fake.Scenario{Network: "tcp", TLS: true, SkipVerify: code%2 == 0, DB: "db", User: "user", Password: "Pw!correct-horse-battery-staple", Denied: -1, Mech: int(code/2) % 4, Challenge: gen.Pattern(20, 1, 3)}
				for i := 0; i < 2; i++ { // both ways, for two of the mechanisms
					s.SkipVerify, s.Mech = !s.SkipVerify, (s.Mech+i)%4
					s.Acts = []fake.Act{{Name: fmt.Sprint("TLS refused with ", code), Reply: (&fake.SrvErr{Code: code, State: "HY000", Msg: "no", Fatal: code%5 == 4}).Frame(), Then: fake.Go}}
					if s.Mech != 3 {
						s.Acts = append(s.Acts, fake.Act{Name: "challenge", Reply: wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Then: fake.Go})
					}
					for i := 0; i < 3; i++ {
						s.Acts = append(s.Acts, fake.Act{Name: "accepts", Reply: wire.Message(wire.SAuthenticateOk, nil), Then: fake.Accept})
					}
					srv := fake.Start(s)
					defer srv.Stop()
					cn, err := s.Connector(srv.Addr)
					if err != nil {
						t.Fatalf("%v", err)
					}
					ctx, cancel := s.Context()
					defer cancel()
					conn, err := cn.New(ctx)
					if conn != nil {
						conn.Close()
					}
					srv.Stop()
					if e := confidential(s, srv.Wait(), false); e != nil {
						t.Fatalf("%v: %v (New: %v)", s, e, err)
					}
					if e := further(s, srv); e != nil {
						t.Fatalf("%v: %v (New: %v)", s, e, err)
					}
				}
				c.NonTrivial(fmt.Sprint(code))
				c.Sample(s.String)
			})
		}
	}
}

// Which refusals let the PLAIN retry happen.
func TestCodes(t *testing.T) {
	hx.Rule(t, "over a unix socket, the authentication refused with each error code from 1000 to 1100, 1250 to 1260, 1690 to 1700, 1860 to 1880, 3000 to 3200 step 7, 5000 to 5170 step 7, at the start or after the challenge: PLAIN only after 1045; non-trivial: all")
	var codes []uint32
	for _, r := range [][3]uint32{{1000, 1100, 1}, {1250, 1260, 1}, {1690, 1700, 1}, {1860, 1880, 1}, {3000, 3200, 7}, {5000, 5170, 7}} {
		for c := r[0]; c <= r[1]; c += r[2] {
			codes = append(codes, c)
		}
	}
	for _, code := range codes {
		for early := 0; early < 2; early++ {
			hx.Each(t, func(c *hx.Case) {
				s := &fake.Scenario{Network: "unix", DB: "db", User: "user", Password: "Pw!correct-horse-battery-staple", Denied: -1, Challenge: gen.Pattern(20, 1, 3)}
				if early == 0 {
					s.Acts = append(s.Acts, fake.Act{Name: "challenge", Reply: wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Then: fake.Go})
				}
				if code == 1045 {
					s.Denied = len(s.Acts)
				}
				s.Acts = append(s.Acts, fake.Act{Name: fmt.Sprint("refused with ", code), Reply: (&fake.SrvErr{Code: code, State: "28000", Msg: "Access denied"}).Frame(), Then: fake.Go})
				for i := 0; i < 3; i++ {
					s.Acts = append(s.Acts, fake.Act{Name: "accepts", Reply: wire.Message(wire.SAuthenticateOk, nil), Then: fake.Accept})
				}
				c.NonTrivial(fmt.Sprint(code, early))
				c.Sample(s.String)
				srv := fake.Start(s)
				defer srv.Stop()
				cn, err := s.Connector(srv.Addr)
				if err != nil {
					t.Fatalf("%v", err)
				}
				ctx, cancel := s.Context()
				defer cancel()
				conn, err := cn.New(ctx)
				if conn != nil {
					conn.Close()
				}
				srv.Stop()
				if e := confidential(s, srv.Wait(), true); e != nil {
					t.Fatalf("%v: %v (New: %v)", s, e, err)
				}
				if (code == 1045) != (err == nil) {
					t.Fatalf("%v: New: %v", s, err)
				}
			})
		}
	}
}
