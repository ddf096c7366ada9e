package fake

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// What the server does after its reply.
const (
	Go     = iota // wait for the next message
	Shut          // close its sending side
	Stall         // say nothing any more
	UseTLS        // TLS handshake
	Accept        // authentication accepted: answer statements from now on
)

// Act is the server's reaction to one client message.
type Act struct {
	Name  string
	Reply []byte
	Then  int
}

// Scenario is one connection attempt: the application's choices and the server's script.
type Scenario struct {
	Network    string // tcp or unix
	TLS        bool   // the application gave a TLS configuration
	SkipVerify bool
	Conf       int // other configurations, all of which refuse this server: see ClientTLS
	Mech       int // 0 default, 1 mysql41, 2 sha256, 3 plain
	DB, User   string
	Password   string
	Rot        int // the order of the options

	Cert      int
	BadHello  int // 0: handshake, 1: garbage instead, 2: shut, 3: stall
	Acts      []Act
	Accepts   bool // the script ends with the authentication accepted
	MayFail   bool // the client may give up earlier than that
	Denied    int  // index of the act that denies access with 1045 (-1: none)
	Retry     bool // access denied over a secure transport: a PLAIN retry is due
	MayRetry  bool // ... or allowed
	Challenge []byte
	Generous  bool // no script: TLS is refused, all else accepted
	NeedsCtx  bool // something stalls
}

// Secure tells whether the transport is confidential in this scenario, if the handshake succeeds.
func (s *Scenario) Secure() bool { return s.Network == "unix" || s.TLS }

// HandshakeFails tells whether TLS is attempted and cannot succeed.
func (s *Scenario) HandshakeFails() bool {
	return s.Network == "tcp" && s.TLS && (s.BadHello != 0 || s.Conf != 0 || s.Cert != CertGood && !s.SkipVerify)
}

func (s *Scenario) String() string {
	r := fmt.Sprintf("%s, tls %v (skip verify %v, configuration %d, certificate %d, hello %d), mechanism %d, password of %d bytes:", s.Network, s.TLS, s.SkipVerify, s.Conf, s.Cert, s.BadHello, s.Mech, len(s.Password))
	for _, a := range s.Acts {
		r += " " + a.Name + ";"
	}
	return r
}

var pwLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ!%-"

// NewScenario draws a scenario.
func NewScenario(g *gen.G) *Scenario {
	s := &Scenario{Denied: -1}
	s.Network = []string{"tcp", "tcp", "tcp", "unix"}[g.Pick(4, "net")]
	s.TLS = g.Chance(60, "tls")
	s.SkipVerify = s.TLS && g.Chance(20, "skipverify")
	if s.TLS && g.Chance(12, "conf") {
		s.Conf = 1 + g.Pick(NConf-1, "which conf")
	}
	s.Mech = g.Pick(4, "mech")
	s.Rot = g.Pick(4, "rot")
	s.DB = []string{"", "db", "a_database"}[g.Pick(3, "db")]
	if g.Chance(12, "longdb") {
		s.DB = string(gen.Pattern(g.Int(20, 300, "dblen"), 'd', 0))
	}
	s.User = []string{"root", "", "user name", string(gen.Pattern(120, 'a', 0))}[g.Pick(4, "user")]
	if g.Chance(8, "longuser") {
		s.User = string(gen.Pattern(g.Int(20, 300, "userlen"), 'u', 0))
	}
	n := g.Int(14, 48, "pwlen")
	if g.Chance(10, "longpw") {
		n = g.Int(100, 300, "pwlen2")
	}
	pw := []byte("Pw!")
	for len(pw) < n {
		pw = append(pw, pwLetters[g.Pick(len(pwLetters), "pw")])
	}
	s.Password = string(pw)
	return ScenarioFor(g, s)
}

// ScenarioFor draws what the server does when the application makes the choices of app.
func ScenarioFor(g *gen.G, app *Scenario) *Scenario {
	s := &Scenario{Denied: -1, Network: app.Network, TLS: app.TLS, SkipVerify: app.SkipVerify, Conf: app.Conf, Mech: app.Mech, Rot: app.Rot, DB: app.DB, User: app.User, Password: app.Password}
	nc := 20
	if g.Chance(25, "chlen") {
		nc = []int{0, 1, 8, 19, 21, 32, 64, 255, 5000}[g.Pick(9, "chn")]
	}
	s.Challenge = gen.Pattern(nc, byte(g.Int(0, 255, "ch")), byte(g.Int(0, 255, "chs")))

	notices := func() []byte {
		var b []byte
		if g.Chance(25, "notice") {
			b = Intermediate(g, wire.SNotice, true, "notice")
		}
		return b
	}
	add := func(a Act) bool {
		a.Reply = append(notices(), a.Reply...)
		s.Acts = append(s.Acts, a)
		s.NeedsCtx = s.NeedsCtx || a.Then == Stall
		return a.Then != Shut && a.Then != Stall
	}
	secure := s.Network == "unix"
	if s.Network == "tcp" && s.TLS {
		switch k := g.Int(0, 19, "cap"); {
		case k < 11:
			add(Act{"TLS enabled", wire.Message(wire.SOk, nil), UseTLS})
		case k < 14: // with a plaintext message slipped in
			inj := wire.Message(wire.SAuthenticateOk, nil)
			if g.Chance(50, "inj2") {
				inj = append(inj, wire.Message(wire.SStmtExecuteOk, nil)...)
			}
			add(Act{"TLS enabled, plaintext answers injected", append(wire.Message(wire.SOk, nil), inj...), UseTLS})
			s.MayFail = true
		default:
			s.failure(g, add, "cap", "TLS")
			return s
		}
		if g.Chance(30, "badcert") {
			s.Cert = g.Int(1, NCerts-1, "cert")
		}
		if g.Chance(15, "badhello") {
			s.BadHello = g.Int(1, 3, "hello")
			s.NeedsCtx = s.NeedsCtx || s.BadHello == 3
		}
		if s.HandshakeFails() {
			// What the server would do if the client went on regardless: everything it wants.
			s.Acts = append(s.Acts, Act{"accepts", wire.Message(wire.SAuthenticateOk, nil), Accept})
			return s
		}
		secure = true
	}
	challenge := Act{"challenge", wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Go}
	if s.Mech != 3 {
		if g.Chance(15, "startfails") {
			s.denial(g, add, secure, "start")
			return s
		}
		if g.Chance(6, "badchallenge") {
			bad := [][]byte{nil, {0x0a}, {0x0a, 5, 1, 2}, {0x08, 1}, {0x12, 1, 'x'}, append(wire.AuthPayload(s.Challenge), 0x0a, 0x7f), {0xff}, {0x0b}, append([]byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f}, s.Challenge...)}
			i := g.Pick(len(bad), "which")
			add(Act{"malformed challenge " + fmt.Sprint(i), wire.Message(wire.SAuthenticateContinue, bad[i]), Go})
			s.tail()
			return s
		}
		add(challenge)
	}
	switch k := g.Int(0, 9, "auth"); {
	case k < 4:
		add(Act{"accepts", wire.Message(wire.SAuthenticateOk, nil), Accept})
		s.Accepts = true
	case k == 4 && s.Mech != 3:
		add(Act{"one challenge too many", challenge.Reply, Go})
		s.tail()
	default:
		s.denial(g, add, secure, "auth")
	}
	return s
}

// tail: should the client go on although it was refused, it is given all it wants.
func (s *Scenario) tail() {
	for i := 0; i < 3; i++ {
		s.Acts = append(s.Acts, Act{"(accepts)", wire.Message(wire.SAuthenticateOk, nil), Accept})
	}
}

// failure adds an act that ends the attempt.
func (s *Scenario) failure(g *gen.G, add func(Act) bool, label, what string) {
	defer s.tail()
	switch g.Pick(7, label+".how") {
	case 0, 1:
		e := NewErr(g, false, false, label+".err")
		add(Act{what + " refused: " + e.String(), e.Frame(), Go})
	case 2:
		e := NewErr(g, true, false, label+".err")
		add(Act{what + " refused: " + e.String(), e.Frame(), Go})
	case 3:
		add(Act{"disconnects instead of answering " + what, nil, Shut})
	case 4:
		f := (&SrvErr{Code: 1, State: "HY000", Msg: "truncated"}).Frame()
		add(Act{"disconnects amid the answer to " + what, f[:g.Int(1, len(f)-1, label+".cut")], Shut})
	case 5:
		add(Act{"message of length 0 for " + what, []byte{0, 0, 0, 0, wire.SOk}, Go})
	case 6:
		if g.Chance(60, label+".nostall") {
			add(Act{"disconnects after a notice instead of answering " + what, wire.Message(wire.SNotice, wire.NoticePayload(1, 2, nil)), Shut})
			return
		}
		add(Act{"stalls at " + what, nil, Stall})
	}
}

// denial adds a refusal of the authentication and, where a retry is due, its answer.
func (s *Scenario) denial(g *gen.G, add func(Act) bool, secure bool, label string) {
	if g.Chance(40, label+".other") {
		n := len(s.Acts)
		s.failure(g, add, label, "authentication")
		// A drawn code may be that of denied access.
		if c, fatal, ok := errorCode(s.Acts[n].Reply); ok && c == 1045 {
			s.deny(g, n, secure, fatal, add, label)
		}
		return
	}
	e := &SrvErr{Code: 1045, State: "28000", Msg: "Access denied", Fatal: g.Chance(15, label+".fatal")}
	n := len(s.Acts)
	add(Act{"access denied (fatal " + fmt.Sprint(e.Fatal) + ")", e.Frame(), Go})
	s.deny(g, n, secure, e.Fatal, add, label)
}

func (s *Scenario) deny(g *gen.G, n int, secure, fatal bool, add func(Act) bool, label string) {
	s.Acts = s.Acts[:n+1]
	s.Denied = n
	if !secure {
		s.tail()
		return
	}
	s.MayRetry = true
	s.Retry = !fatal
	if g.Chance(55, label+".retryok") {
		add(Act{"accepts the retry", wire.Message(wire.SAuthenticateOk, nil), Accept})
		s.Accepts = true
		s.MayFail = s.MayFail || fatal
		return
	}
	switch g.Pick(3, label+".retry") {
	case 0:
		e := &SrvErr{Code: 1045, State: "28000", Msg: "Access denied", Fatal: fatal != g.Chance(25, label+".fatal2")}
		add(Act{"denies the retry (fatal " + fmt.Sprint(e.Fatal) + ")", e.Frame(), Go})
		s.tail()
	case 1:
		add(Act{"challenges the retry", wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.Challenge)), Go})
		s.tail()
	case 2:
		s.failure(g, add, label+".rf", "the retry")
	}
}

// errorCode finds the first error message of a reply.
func errorCode(b []byte) (code uint32, fatal, ok bool) {
	for len(b) >= 5 {
		n := int(binary.LittleEndian.Uint32(b))
		if n < 1 || len(b) < 4+n {
			return 0, false, false
		}
		if b[4] == wire.SError {
			e, good := parseErr(b[5 : 4+n])
			return e.Code, e.Fatal, good
		}
		b = b[4+n:]
	}
	return 0, false, false
}

// Received is what the server saw.
type Received struct {
	mu           sync.Mutex
	Raw          []byte // everything, as it came over the socket
	Clear        []wire.Frame
	Secret       []wire.Frame // over TLS
	HandshakeErr error
	HandshakeOK  bool
	Replies      []string // the acts carried out
	AcceptSent   bool
	Closed       bool // the client closed its end
	Why          error
}

type tee struct {
	net.Conn
	r *Received
}

func (t tee) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.r.mu.Lock()
	t.r.Raw = append(t.r.Raw, b[:n]...)
	t.r.mu.Unlock()
	return n, err
}

// Server is a listening fake server for one connection per scenario.
type Server struct {
	Addr string
	ln   net.Listener
	dir  string
	done chan struct{}
	got  []*Received
	more []*Received // of connections beyond the scenarios
	scs  []*Scenario

	mu    sync.Mutex
	until time.Time // when to stop waiting for the clients to close their sockets; 0: they are still at it
	raws  []net.Conn
}

// accepted applies the deadline to a new connection.
func (s *Server) accepted(raw net.Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.raws = append(s.raws, raw)
	raw.SetReadDeadline(s.until)
}

// limit says that the client is done with its sockets.
func (s *Server) limit() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.until.IsZero() {
		s.until = time.Now().Add(leakLimit)
		for _, raw := range s.raws {
			raw.SetReadDeadline(s.until)
		}
	}
}

// session is one connection of the server.
type session struct {
	got *Received
	sc  *Scenario
}

// leakLimit is how long the server waits for the client to close its socket.
const leakLimit = 12 * time.Second

// Start listens and serves one connection per scenario; the scenarios differ only in what
// the server does.
func Start(scs ...*Scenario) *Server {
	s := &Server{scs: scs, done: make(chan struct{})}
	sc := scs[0]
	for range scs {
		s.got = append(s.got, &Received{})
	}
	var err error
	if sc.Network == "unix" {
		if s.dir, err = os.MkdirTemp("", "xs"); err != nil {
			hx.HarnessError("%v", err)
		}
		s.Addr = filepath.Join(s.dir, "s")
		if len(s.Addr) > 100 {
			os.RemoveAll(s.dir)
			if s.dir, err = os.MkdirTemp("/tmp", "xs"); err != nil {
				hx.HarnessError("%v", err)
			}
			s.Addr = filepath.Join(s.dir, "s")
		}
		s.ln, err = net.Listen("unix", s.Addr)
	} else {
		s.ln, err = net.Listen("tcp", "127.0.0.1:0")
	}
	if err != nil {
		hx.HarnessError("listen: %v", err)
	}
	if sc.Network == "tcp" {
		s.Addr = s.ln.Addr().String()
	}
	go s.serve()
	return s
}

// Wait gives what the server saw, once the client has closed its end (or did not in time).
func (s *Server) Wait() *Received { return s.WaitAll()[0] }

// WaitAll gives what the server saw on each of its connections, in the order of the scenarios.
func (s *Server) WaitAll() []*Received {
	s.limit()
	s.ln.Close()
	select {
	case <-s.done:
	case <-time.After(leakLimit + 60*time.Second):
		hx.HarnessError("the fake server does not end")
	}
	return s.got
}

// More gives what the server saw on connections beyond those of the scenarios, after Wait.
func (s *Server) More() []*Received { return s.more }

// Stop releases the listener; a server that saw no connection ends.
func (s *Server) Stop() {
	s.ln.Close()
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func readFrame(c net.Conn) (wire.Frame, error) {
	var h [5]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return wire.Frame{}, err
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n < 1 || n > 1<<24 {
		return wire.Frame{}, fmt.Errorf("client message of length %d", n)
	}
	p := make([]byte, n-1)
	if _, err := io.ReadFull(c, p); err != nil {
		return wire.Frame{}, err
	}
	return wire.Frame{Type: int(h[4]), Payload: p}, nil
}

func shut(raw net.Conn) {
	if w, ok := raw.(interface{ CloseWrite() error }); ok {
		w.CloseWrite()
	}
}

func (s *Server) serve() {
	defer close(s.done)
	var wg sync.WaitGroup
	defer wg.Wait()
	for i := 0; ; i++ {
		raw, err := s.ln.Accept()
		if i >= len(s.scs) {
			if err != nil {
				return
			}
			// A client that dials again is welcome.
			got := &Received{}
			s.more = append(s.more, got)
			s.accepted(raw)
			wg.Add(1)
			go func() {
				defer wg.Done()
				(&session{got, &Scenario{Challenge: s.scs[0].Challenge, Generous: true}}).serve(raw)
			}()
			continue
		}
		if err != nil {
			// Never seen by the server: nothing is known about its end.
			for _, got := range s.got[i:] {
				got.Why, got.Closed = err, true
			}
			return
		}
		s.accepted(raw)
		wg.Add(1)
		go func() {
			defer wg.Done()
			(&session{s.got[i], s.scs[i]}).serve(raw)
		}()
	}
}

func (s *session) serve(raw net.Conn) {
	defer raw.Close()
	var conn net.Conn = tee{raw, s.got}
	var tc *tls.Conn
	s.got.Why = s.script(raw, &conn, &tc)
	// Whatever happened: wait for the client's end to be closed.
	t := tee{raw, s.got}
	buf := make([]byte, 4096)
	for again := true; ; {
		if _, err := t.Read(buf); err != nil {
			ne, ok := err.(net.Error)
			if ok && ne.Timeout() && again {
				again = false
				raw.SetReadDeadline(time.Now().Add(time.Second))
				continue
			}
			s.got.Closed = !(ok && ne.Timeout())
			return
		}
	}
}

func (s *session) script(raw net.Conn, conn *net.Conn, tc **tls.Conn) error {
	acts := s.sc.Acts
	accepted := false
	for {
		f, err := readFrame(*conn)
		if err != nil {
			return err
		}
		s.got.mu.Lock()
		if *tc != nil {
			s.got.Secret = append(s.got.Secret, f)
		} else {
			s.got.Clear = append(s.got.Clear, f)
		}
		s.got.mu.Unlock()
		if accepted && f.Type != wire.AuthenticateStart && f.Type != wire.AuthenticateContinue {
			if _, err := (*conn).Write(wire.Message(Terminal(byte(f.Type)), nil)); err != nil {
				return err
			}
			continue
		}
		if s.sc.Generous {
			acts = []Act{{"accepts", wire.Message(wire.SAuthenticateOk, nil), Accept}}
			switch f.Type {
			case wire.CapabilitiesSet:
				acts = []Act{{"refuses TLS", (&SrvErr{Code: 5001, State: "HY000", Msg: "no"}).Frame(), Go}}
			case wire.AuthenticateStart:
				if m, err := wire.Decode(f); err == nil && m.Mech != "PLAIN" {
					acts = []Act{{"challenge", wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(s.sc.Challenge)), Go}}
				}
			}
		}
		if len(acts) == 0 {
			return fmt.Errorf("end of the script")
		}
		a := acts[0]
		acts = acts[1:]
		s.got.Replies = append(s.got.Replies, a.Name)
		if a.Then == Accept {
			s.got.AcceptSent = true
			accepted = true
		}
		if len(a.Reply) > 0 {
			if _, err := (*conn).Write(a.Reply); err != nil {
				return err
			}
		}
		switch a.Then {
		case Shut:
			shut(raw)
			return nil
		case Stall:
			return nil
		case UseTLS:
			switch s.sc.BadHello {
			case 1:
				// in answer to the client's hello, or it might be read along with the reply before
				if _, err := io.ReadFull(*conn, make([]byte, 5)); err != nil {
					return err
				}
				(*conn).Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
				return nil
			case 2:
				shut(raw)
				return nil
			case 3:
				return nil
			}
			t := tls.Server(*conn, ServerTLS(s.sc.Cert))
			if err := t.Handshake(); err != nil {
				s.got.HandshakeErr = err
				return err
			}
			s.got.HandshakeOK = true
			*tc, *conn = t, t
		}
	}
}

// Connector makes the application's connector for the scenario.
func (s *Scenario) Connector(addr string) (*connector.Connector, error) {
	opts := []connector.Option{connector.WithUserPassword(s.User, s.Password)}
	if s.DB != "" {
		opts = append(opts, connector.WithDatabase(s.DB))
	}
	if s.TLS {
		opts = append(opts, connector.WithTLSConfig(ClientTLS(s.SkipVerify, s.Conf)))
	}
	switch s.Mech {
	case 1:
		opts = append(opts, connector.WithAuthentication(mysql41.New()))
	case 2:
		opts = append(opts, connector.WithAuthentication(sha256.New()))
	case 3:
		opts = append(opts, connector.WithAuthentication(plain.New()))
	}
	k := s.Rot % len(opts)
	return connector.New(s.Network, addr, append(opts[k:len(opts):len(opts)], opts[:k]...)...)
}

// MechName is the mechanism the application selected.
func (s *Scenario) MechName() string {
	return []string{"MYSQL41", "MYSQL41", "SHA256_MEMORY", "PLAIN"}[s.Mech]
}

// FirstMech gives the mechanism named by the first attempt to authenticate, if there is one.
func (r *Received) FirstMech() (string, bool) {
	for _, fs := range [][]wire.Frame{r.Clear, r.Secret} {
		for _, f := range fs {
			if f.Type == wire.AuthenticateStart {
				m, err := wire.Decode(f)
				return m.Mech, err == nil
			}
		}
	}
	return "", false
}

// Context is the one the application connects with.
func (s *Scenario) Context() (context.Context, context.CancelFunc) {
	if s.NeedsCtx {
		return context.WithTimeout(context.Background(), 150*time.Millisecond)
	}
	return context.WithTimeout(context.Background(), 60*time.Second)
}
