package c24

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/types"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

func TestMain(m *testing.M) { hx.Main(m) }

// A task is done several times by one goroutine; it tells what differs from what it gives alone.
type task struct {
	what string
	do   func(rep int) error
}

// world is what the goroutines share.
type world struct {
	ops   []*gen.Op // with their expressions and arguments
	mechs [3]authentication.Starter
	creds []creds
	decs  []dec
	colls []collation.Collation
	names []string
	errs  []*connection.MySqlXError
	texts []string
	units []*served
}

type creds struct{ db, user, pass string }

func (c creds) UserName() string { return c.user }
func (c creds) Password() string { return c.pass }
func (c creds) Database() string { return c.db }

type dec struct {
	d    types.Decimal
	text string
	coef *big.Int
	neg  bool
	exp  int32
}

func newDec(g *gen.G) dec {
	k := g.Int(1, 65, "digits")
	b := make([]byte, k)
	for i := range b {
		b[i] = byte('0' + g.Int(0, 9, "d"))
	}
	b[0] = byte('1' + g.Int(0, 8, "first"))
	scale := g.Int(0, k-1, "scale")
	r := dec{neg: g.Chance(50, "neg"), exp: -int32(scale)}
	r.coef, _ = new(big.Int).SetString(string(b), 10)
	nib := make([]byte, 0, 70)
	for _, c := range b {
		nib = append(nib, c-'0')
	}
	sign := byte(0xC)
	if r.neg {
		sign = 0xD
		r.text = "-"
	}
	r.text += string(b[:k-scale])
	if scale > 0 {
		r.text += "." + string(b[k-scale:])
	}
	nib = append(nib, sign)
	if len(nib)%2 == 1 {
		nib = append(nib, 0)
	}
	r.d = types.Decimal{byte(scale)}
	for i := 0; i < len(nib); i += 2 {
		r.d = append(r.d, nib[i]<<4|nib[i+1])
	}
	return r
}

// served is a unit and the stream that answers it.
type served struct {
	unit, stream []byte
	answers      []*fake.Answer
}

func newServed(g *gen.G, bigger bool) *served {
	s := &served{}
	for i, n := 0, g.Int(1, 5, "messages"); i < n; i++ {
		typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
		s.unit = append(s.unit, fake.ClientMsg(g, typ, "msg")...)
		a := fake.NewAnswer(g, typ, typ != wire.SessReset && g.Chance(60, "refuse"), bigger, "ans")
		s.answers = append(s.answers, a)
		s.stream = append(s.stream, a.Bytes()...)
	}
	return s
}

func newWorld(g *gen.G) *world {
	w := &world{mechs: [3]authentication.Starter{mysql41.New(), sha256.New(), plain.New()}}
	p, left := &gen.Prog{}, 0
	o := gen.Opts{MaxOps: 5, MaxDepth: 0, ExprDepth: 2}
	kinds := []int{gen.KStmt, gen.KExecute, gen.KInsert, gen.KInsertF, gen.KUpdate, gen.KUpdateF, gen.KDelete, gen.KDelete}
	for i := 0; i < 4; i++ {
		w.ops = append(w.ops, g.OpOf(kinds[g.Pick(len(kinds), "kind")], p, o, 0, &left, "shared"))
	}
	for i := 0; i < 3; i++ {
		c := creds{g.Name("db"), g.Name("user"), g.Name("pass")}
		z := func(s string) string { return strings.ReplaceAll(s, "\x00", "0") }
		w.creds = append(w.creds, creds{z(c.db), z(c.user), z(c.pass)})
		w.decs = append(w.decs, newDec(g))
		w.units = append(w.units, newServed(g, g.Chance(30, "big")))
		cl := collation.Collation(g.Int(1, 320, "coll"))
		if g.Chance(25, "unknown") {
			cl = collation.Collation(g.Uint64(64, "number"))
		}
		w.colls = append(w.colls, cl)
		name := ""
		if cl < 320 { // else the goroutines are the first to ask for it
			name = cl.String()
		}
		w.names = append(w.names, name)
		e := &connection.MySqlXError{Code: uint32(g.Uint64(32, "code")), SqlState: "HY000", Msg: g.Name("msg")}
		w.errs = append(w.errs, e)
		e2 := *e
		w.texts = append(w.texts, e2.Error())
	}
	return w
}

func frame(b []byte, typ int) (wire.Msg, error) {
	fr, err := wire.Frames(b)
	if err != nil {
		return wire.Msg{}, err
	}
	if len(fr) != 1 || fr[0].Type != typ {
		return wire.Msg{}, fmt.Errorf("not one message of type %d: %v", typ, fr)
	}
	return wire.Decode(fr[0])
}

var mechNames = []string{"MYSQL41", "SHA256_MEMORY", "PLAIN"}

// exchange authenticates over a connection of its own.
func exchange(k int, st authentication.Starter, cr creds, ch []byte) error {
	fc := &fake.Conn{}
	if k < 2 {
		fc.In = append(fc.In, wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(ch))...)
	}
	fc.In = append(fc.In, wire.Message(wire.SAuthenticateOk, nil)...)
	conn := connection.New(fc)
	if err := conn.Authenticate(context.Background(), cr, st); err != nil {
		return err
	}
	ws := fc.Writes()
	if want := []int{2, 2, 1}[k]; len(ws) != want {
		return fmt.Errorf("%d messages written", len(ws))
	}
	m, err := frame(ws[0], wire.AuthenticateStart)
	if err != nil {
		return err
	}
	if m.Mech != mechNames[k] {
		return fmt.Errorf("names mechanism %q", m.Mech)
	}
	a := fake.NewAccount(cr.db, cr.user, cr.pass)
	if k == 2 {
		return a.Plain(m.AuthData)
	}
	if m, err = frame(ws[1], wire.AuthenticateContinue); err != nil {
		return err
	}
	if k == 0 {
		return a.MySQL41(ch, m.AuthData)
	}
	return a.SHA256(ch, m.AuthData)
}

func newTask(g *gen.G, w *world, me int) task {
	switch k := g.Int(0, 7, "task"); k {
	case 0, 1, 2:
		p := g.Program(gen.Opts{MaxOps: 3, MaxDepth: 1, ExprDepth: 1})
		for i := g.Int(1, 4, "nshared"); i > 0; i-- {
			p.Ops = append(p.Ops, w.ops[g.Pick(len(w.ops), "which")])
		}
		want := gen.Expected(p.Ops)
		x := xtorm.New(me * 40)
		return task{"builder: " + gen.Ops(p.Ops), func(int) error {
			x.Reset()
			p.ResetIDs()
			p.Run(&x.Builder, p.Ops)
			r := &gen.Recorder{}
			if _, err := x.Send(context.Background(), r); err != nil {
				return err
			}
			return gen.MatchUnit(want, r.Units[0])
		}}
	case 3:
		s := w.units[g.Pick(len(w.units), "unit")]
		if g.Chance(60, "own") {
			s = newServed(g, g.Chance(30, "big"))
		}
		fc := &fake.Conn{}
		var how string
		fc.Chunk, how = fake.Chunker(g, "chunk")
		conn := connection.New(fc)
		var kept [][]netx.Response
		return task{fmt.Sprintf("connection: %v (%s)", s.answers, how), func(int) error {
			fc.In = append([]byte(nil), s.stream...)
			r, err := conn.Send(context.Background(), s.unit)
			if err != nil || len(r) != len(s.answers) {
				return fmt.Errorf("%d of %d responses, error %v", len(r), len(s.answers), err)
			}
			kept = append(kept, r)
			for _, r := range kept {
				for i, a := range s.answers {
					if err := a.Match(r[i]); err != nil {
						return err
					}
				}
			}
			if ws := fc.Writes(); !bytes.Equal(ws[len(ws)-1], s.unit) {
				return fmt.Errorf("another unit was written")
			}
			return nil
		}}
	case 4, 5:
		k := g.Pick(3, "mech")
		cr := w.creds[g.Pick(len(w.creds), "creds")]
		return task{mechNames[k] + fmt.Sprintf(" for a password of %d bytes", len(cr.pass)), func(rep int) error {
			return exchange(k, w.mechs[k], cr, gen.Pattern(20, byte(me*20+rep), 7))
		}}
	case 6:
		d := w.decs[g.Pick(len(w.decs), "dec")]
		return task{"decimal " + d.text, func(int) error {
			if s := d.d.String(); s != d.text {
				return fmt.Errorf("prints as %q", s)
			}
			form, neg, coef, exp := d.d.Decompose(nil)
			if form != 0 || neg != d.neg || exp != d.exp || new(big.Int).SetBytes(coef).Cmp(d.coef) != 0 {
				return fmt.Errorf("decomposes into %d %v %x %d", form, neg, coef, exp)
			}
			return nil
		}}
	default:
		i := g.Pick(len(w.colls), "which")
		return task{fmt.Sprintf("collation %d, error %s", uint(w.colls[i]), fake.Clip(w.texts[i])), func(int) error {
			if s := w.colls[i].String(); w.names[i] != "" && s != w.names[i] || w.names[i] == "" && !strings.Contains(s, fmt.Sprint(uint(w.colls[i]))) {
				return fmt.Errorf("prints as %q", s)
			}
			if s := w.errs[i].Error(); s != w.texts[i] {
				return fmt.Errorf("prints as %q", s)
			}
			if w.errs[i].IsFatal() || w.colls[i].IsBinary() != (w.colls[i] == collation.Binary) {
				return fmt.Errorf("wrong flags")
			}
			return nil
		}}
	}
}

// Goroutines that share values and use builders and connections of their own.
func TestShared(t *testing.T) {
	hx.Check(t, 250, 6000, "2 to 6 goroutines, each with 1 to 4 tasks (encode a program with expressions and arguments they share, send units over a connection of its own, authenticate with mechanisms and credentials they share, print and take apart decimals, collations and errors they share) done 6 times in turn, under the race detector; each task must give what it gives alone; non-trivial: two goroutines with tasks of the same kind", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := newWorld(g)
		n := g.Int(2, 6, "goroutines")
		tasks := make([][]task, n)
		kinds, both := map[string]int{}, false
		key := ""
		for i := range tasks {
			for j := g.Int(1, 4, "tasks"); j > 0; j-- {
				k := newTask(g, w, i)
				tasks[i] = append(tasks[i], k)
				kind := strings.SplitN(k.what, " ", 2)[0]
				if by, ok := kinds[kind]; ok && by != i {
					both = true
				}
				kinds[kind] = i
				key += k.what + " | "
			}
			key += "|| "
		}
		for k := range kinds {
			c.Class(k)
		}
		errs := make([]error, n)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range tasks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[i] = fmt.Errorf("panic: %v", p)
					}
				}()
				<-start
				for rep := 0; rep < 6; rep++ {
					for _, k := range tasks[i] {
						if err := k.do(rep); err != nil {
							errs[i] = fmt.Errorf("%s: %w", k.what, err)
							return
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("goroutine %d of %d: %v", i, n, err)
			}
		}
		if both {
			c.NonTrivial(key)
			c.Sample(func() string { return fake.Clip(key) })
		}
	})
}

// proofs verifies what a connection said about the account.
func proofs(r *fake.Received, s *fake.Scenario, a *fake.Account) error {
	mech := ""
	for _, f := range append(append([]wire.Frame(nil), r.Clear...), r.Secret...) {
		if f.Type != wire.AuthenticateStart && f.Type != wire.AuthenticateContinue {
			continue
		}
		m, err := wire.Decode(f)
		switch {
		case err != nil:
		case f.Type == wire.AuthenticateStart:
			if mech = m.Mech; mech == "PLAIN" {
				err = a.Plain(m.AuthData)
			}
		case mech == "MYSQL41":
			err = a.MySQL41(s.Challenge, m.AuthData)
		case mech == "SHA256_MEMORY":
			err = a.SHA256(s.Challenge, m.AuthData)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", mech, err)
		}
	}
	return nil
}

// One connector used by several goroutines, over sockets.
func TestConnector(t *testing.T) {
	hx.Check(t, 80, 1200, "one connector (TCP, TLS or unix socket; any mechanism) connects 2 to 5 times at once to a server that treats each connection in a drawn way; every proof must verify and as many connections be made as the server accepted; non-trivial: two or more accepted", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		app := fake.NewScenario(g)
		scs := []*fake.Scenario{app}
		for i := g.Int(1, 4, "more"); i > 0; i-- {
			scs = append(scs, fake.ScenarioFor(g, app))
		}
		lo, hi, stall := 0, 0, false
		for _, s := range scs {
			stall = stall || s.NeedsCtx
			if s.Accepts {
				hi++
				if !s.MayFail {
					lo++
				}
			}
		}
		srv := fake.Start(scs...)
		defer srv.Stop()
		cn, err := app.Connector(srv.Addr)
		if err != nil {
			t.Fatalf("%v", err)
		}
		errs := make([]error, len(scs))
		conns := make([]netx.Conn, len(scs))
		limit := 60 * time.Second
		if stall {
			limit = 250 * time.Millisecond
		}
		var wg sync.WaitGroup
		for i := range scs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				defer cancel()
				conns[i], errs[i] = cn.New(ctx)
			}()
		}
		wg.Wait()
		made := 0
		for i, conn := range conns {
			if conn != nil {
				made++
				conn.Close()
			} else if errs[i] == nil {
				t.Fatalf("no connection and no error")
			}
		}
		if !stall && (made < lo || made > hi) {
			t.Fatalf("%d connections made, the server accepted %d: %v", made, hi, errs)
		}
		a := fake.NewAccount(app.DB, app.User, app.Password)
		for i, r := range srv.WaitAll() {
			if err := proofs(r, scs[i], a); err != nil {
				t.Fatalf("connection %d (%v): %v", i, scs[i], err)
			}
		}
		if hi >= 2 {
			c.NonTrivial(fmt.Sprint(scs))
			c.Sample(func() string { return fmt.Sprint(scs) })
		}
	})
}
