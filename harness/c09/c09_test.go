package c09

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// send sends the unit and recovers panics, which are never acceptable.
//
// With again, another unit is sent on the broken connection: whatever Send returns then, it
// returns. (Only where the failure leaves no part of a message behind: what is left would be
// taken for lengths, of gigabytes as likely as not.)
func send(fc *fake.Conn, unit []byte, again bool) (r []netx.Response, err error, bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	conn := connection.New(fc)
	r, err = conn.Send(context.Background(), unit)
	if !again {
		return r, err, bad
	}
	func() {
		defer func() {
			if p := recover(); p != nil && bad == "" {
				bad = fmt.Sprintf("panic in the Send after the failed one: %v", p)
			}
		}()
		conn.Send(context.Background(), unit)
	}()
	return r, err, bad
}

// broken checks what Send returned for a stream that answers only the first n messages.
func broken(r []netx.Response, err error, bad string, as []*fake.Answer, n int) error {
	if bad != "" {
		return fmt.Errorf("%s", bad)
	}
	if err == nil {
		return fmt.Errorf("Send reports no error, with %d responses, although only %d of %d messages were answered", len(r), n, len(as))
	}
	if len(r) < n {
		return fmt.Errorf("Send returned %d responses, %d were received before the failure (%v)", len(r), n, err)
	}
	if len(r) > n+1 {
		return fmt.Errorf("Send returned %d responses, only %d were received before the failure (%v)", len(r), n, err)
	}
	for i := 0; i < n; i++ {
		if e := as[i].Match(r[i]); e != nil {
			return fmt.Errorf("message %d, answered before the failure: %v", i, e)
		}
	}
	return nil
}

type script struct {
	unit   []byte
	types  []byte
	as     []*fake.Answer
	stream []byte
	ends   []int // offset at which answer i is complete
}

func (s *script) String() string {
	var l []string
	for _, a := range s.as {
		l = append(l, a.String())
	}
	return strings.Join(l, " | ")
}

func (s *script) add(g *gen.G, typ byte, a *fake.Answer) {
	s.unit = append(s.unit, fake.ClientMsg(g, typ, "msg")...)
	s.types = append(s.types, typ)
	s.as = append(s.as, a)
	s.stream = append(s.stream, a.Bytes()...)
	s.ends = append(s.ends, len(s.stream))
}

func draw(g *gen.G, lo, hi int, big bool) *script {
	s := &script{}
	for i, n := 0, g.Int(lo, hi, "n"); i < n; i++ {
		typ := fake.UnitTypes[g.Pick(len(fake.UnitTypes), "type")]
		s.add(g, typ, fake.NewAnswer(g, typ, typ != wire.SessReset && g.Chance(30, "refuse"), big, "ans"))
	}
	return s
}

func (s *script) answered(pos int) int {
	n := 0
	for n < len(s.ends) && s.ends[n] <= pos {
		n++
	}
	return n
}

// The stream ends at every byte.
func TestCuts(t *testing.T) {
	hx.Check(t, 600, 8000, "conforming streams for units of 1 to 6 messages, cut at every byte (long ones: at every message boundary and up to 300 drawn bytes) by EOF, reset, timeout or close, alone or along with the last bytes; non-trivial: 2 or more messages with a refusal or intermediate message", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		big := g.Chance(30, "big")
		s := draw(g, 1, 6, big)
		chunk, how := fake.Chunker(g, "chunk")
		with := g.Chance(40, "with")
		fail := fake.Fails[g.Pick(len(fake.Fails), "fail")]
		interesting := len(s.stream) > 5*len(s.as)
		if len(s.as) >= 2 && interesting {
			key := fmt.Sprint(s, how, with, fail)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%v; %d bytes, %s, ends with %v", s, len(s.stream), how, fail) })
		}
		c.Class("stream " + how)
		c.Class("ends with " + fail.Error())
		c.ClassIf(with, "error along with data")
		c.ClassIf(big, "large messages")
		bound := map[int]bool{0: true}
		for off := 0; off < len(s.stream); {
			off += 4 + int(binary.LittleEndian.Uint32(s.stream[off:]))
			bound[off] = true
		}
		at := func(pos int) {
			fc := &fake.Conn{In: s.stream[:pos], Chunk: chunk, End: fail, EndWith: with}
			r, err, bad := send(fc, s.unit, bound[pos])
			if e := broken(r, err, bad, s.as, s.answered(pos)); e != nil {
				t.Fatalf("stream of %d bytes (%v) cut at %d by %v: %v", len(s.stream), s, pos, fail, e)
			}
			if !errors.Is(err, fail) && !(fail == io.EOF && errors.Is(err, io.ErrUnexpectedEOF)) {
				t.Fatalf("stream of %d bytes (%v) cut at %d by %v: the error %q does not wrap the cause", len(s.stream), s, pos, fail, err)
			}
		}
		last := len(s.stream) - 1
		if last < 700 {
			for pos := 0; pos <= last; pos++ {
				at(pos)
			}
			return
		}
		off := 0
		for off < len(s.stream) {
			for _, d := range []int{0, 1, 4, 5, 6} {
				if off+d <= last {
					at(off + d)
				}
			}
			off += 4 + int(binary.LittleEndian.Uint32(s.stream[off:]))
			at(off - 1)
			if off > 200000 {
				break
			}
		}
		for i := 0; i < 40; i++ {
			at(g.Int(0, last, "cut"))
		}
	})
}

// A fatal error, or an error answering a reset or an authentication message.
func TestFatal(t *testing.T) {
	hx.Check(t, 8000, 80000, "a fatal error at any message of a unit (alone or behind intermediate messages), or any error answering a session reset or authentication message, whatever the stream holds after it; non-trivial: not at the first message", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		big := g.Chance(20, "big")
		lo, hi := 0, 4
		if !big && g.Chance(8, "long") {
			lo, hi = 14, 40
			c.Class("long unit")
		}
		s := draw(g, lo, hi, big)
		k := len(s.as)
		kind := g.Pick(3, "kind")
		var typ byte
		fatal := true
		switch kind {
		case 0:
			typ = fake.UnitTypes[g.Pick(len(fake.UnitTypes), "ftype")]
		case 1:
			typ, fatal = wire.SessReset, g.Chance(30, "fatal")
		case 2:
			typ, fatal = []byte{wire.AuthenticateStart, wire.AuthenticateContinue}[g.Pick(2, "auth")], g.Chance(30, "fatal")
		}
		a := fake.NewAnswer(g, typ, false, big, "fans")
		a.Err = fake.NewErr(g, fatal, big, "ferr")
		a.Last = a.Err.Frame()
		s.add(g, typ, a)
		more := draw(g, 0, 3, false)
		s.unit = append(s.unit, more.unit...)
		s.as = append(s.as, more.as...)
		after := g.Pick(3, "after")
		fc := &fake.Conn{In: s.stream, End: io.EOF}
		switch after {
		case 1:
			fc.In = append(fc.In, more.stream...) // the answers it would have had
		case 2:
			for i := 0; i < 8; i++ {
				fc.In = append(fc.In, wire.Message(wire.SStmtExecuteOk, nil)...)
			}
		}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		c.Class([]string{"fatal", "reset refused", "authentication refused"}[kind])
		if k > 0 {
			key := fmt.Sprint(s, after)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("error at message %d of %v", k, s) })
		}
		r, err, bad := send(fc, s.unit, true)
		if e := broken(r, err, bad, s.as, k); e != nil {
			t.Fatalf("%v at message %d of %v: %v", a, k, s, e)
		}
	})
}

// Malformed messages inside an otherwise conforming stream.
func TestMalformed(t *testing.T) {
	hx.Check(t, 8000, 80000, "a message of length 0, an error or column description that is not well-formed, an unexpected authentication request, or a length beyond the end of the stream, before any answer of the unit; non-trivial: not before the first answer", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := draw(g, 1, 5, false)
		k := g.Pick(len(s.as), "at")
		pos := 0
		if k > 0 {
			pos = s.ends[k-1]
		}
		// somewhere among the messages before the answer
		for i, m := 0, g.Int(0, len(s.as[k].Before), "skip"); i < m; i++ {
			pos += len(s.as[k].Before[i])
		}
		kind := g.Pick(6, "kind")
		var bad []byte
		switch kind {
		case 0:
			bad = []byte{0, 0, 0, 0, byte(g.Int(0, 20, "ztype"))}
		case 1: // a truncated error
			p := fake.NewErr(g, false, false, "err").Frame()
			// cut inside the text, which comes last, or inside its header
			n := len(p) - g.Int(1, 3, "lost")
			for n > 0 && wellFormed(p[5:n]) {
				n--
			}
			bad = wire.Message(wire.SError, p[5:n])
		case 2:
			p := wire.ColumnMetaPayload("column", 64, 7)
			// the field that is cut short is the last one
			bad = wire.Message(wire.SColumnMetaData, append(p, 0x1a, 9, 'x'))
		case 3:
			bad = wire.Message(wire.SAuthenticateContinue, wire.AuthPayload([]byte("12345678901234567890")))
		case 4:
			bad = wire.Message(wire.SNotice, make([]byte, 3))
			binary.LittleEndian.PutUint32(bad, uint32(len(s.stream)+g.Int(10, 100000, "toolong")))
		case 5: // an error with a wire type that does not exist
			bad = wire.Message(wire.SError, []byte{0x08, 0x00, 0x10, 0x05, 0x1f, 0x01})
		}
		in := append(append(append([]byte(nil), s.stream[:pos]...), bad...), s.stream[pos:]...)
		fc := &fake.Conn{In: in, End: io.EOF}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		name := []string{"length 0", "truncated error", "truncated column description", "unexpected authentication request", "length beyond the end", "impossible wire type"}[kind]
		c.Class(name)
		if k > 0 {
			key := fmt.Sprint(s, kind, pos)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%s before answer %d of %v", name, k, s) })
		}
		r, err, p := send(fc, s.unit, false)
		if e := broken(r, err, p, s.as, k); e != nil {
			t.Fatalf("%s before answer %d of %v: %v", name, k, s, e)
		}
	})
}

func wellFormed(b []byte) bool {
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return false
		}
		b = b[n:]
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return false
		}
		b = b[n:]
		if tag&7 == 2 {
			if v > uint64(len(b)) {
				return false
			}
			b = b[v:]
		}
	}
	return true
}

// Arbitrary damage: success only if the stream really holds an answer for every message.
func TestDamage(t *testing.T) {
	hx.Check(t, 30000, 400000, "conforming streams with 1 to 4 bytes changed, removed, inserted or ranges repeated, or entirely random bytes, ended by EOF; non-trivial: fewer answers than messages remain", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := draw(g, 1, 5, false)
		in := append([]byte(nil), s.stream...)
		if g.Chance(10, "random") {
			in = nil
			for i, n := 0, g.Int(0, 60, "len"); i < n; i++ {
				in = append(in, byte([]int{0, 0, 0, 1, 2, 17, 4, 5, 3, 12, 255}[g.Pick(11, "b")]))
			}
		} else {
			for i, n := 0, g.Int(1, 4, "changes"); i < n && len(in) > 0; i++ {
				p := g.Int(0, len(in)-1, "pos")
				switch g.Pick(4, "how") {
				case 0:
					in[p] = byte(g.Int(0, 255, "byte"))
				case 1:
					in = append(in[:p], in[p+1:]...)
				case 2:
					in = append(in[:p], append([]byte{byte(g.Int(0, 255, "byte"))}, in[p:]...)...)
				case 3:
					q := g.Int(p, len(in), "q")
					in = append(in[:q], append(append([]byte(nil), in[p:q]...), in[q:]...)...)
				}
			}
		}
		// A length that claims gigabytes is a matter of TestHugeLength.
		if huge(in) {
			c.Class("skipped: claims more than 4 MB")
			return
		}
		n, ended := fake.Answered(in, s.types)
		fc := &fake.Conn{In: append([]byte(nil), in...), End: io.EOF}
		fc.Chunk, _ = fake.Chunker(g, "chunk")
		c.ClassIf(ended, "not all answered")
		c.ClassIf(!ended, "still all answered")
		if ended {
			key := fmt.Sprintf("%x", in)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%d messages, stream %s", len(s.as), key) })
		}
		r, err, bad := send(fc, s.unit, false)
		if bad != "" {
			t.Fatalf("stream %x: %s", in, bad)
		}
		if err == nil && ended {
			t.Fatalf("stream %x: Send reports success with %d responses, only %d of %d messages were answered", in, len(r), n, len(s.types))
		}
		if err == nil && len(r) != len(s.types) {
			t.Fatalf("stream %x: %d responses for %d messages", in, len(r), len(s.types))
		}
	})
}

func huge(b []byte) bool {
	for off := 0; off+4 <= len(b); {
		n := binary.LittleEndian.Uint32(b[off:])
		if n > 4<<20 {
			return true
		}
		off += 4 + int(n)
	}
	return false
}

// Lengths that claim up to 4 GB.
func TestHugeLength(t *testing.T) {
	hx.Rule(t, "messages that claim 256 MB, 2 GB - 1 and 4 GB - 1, of an answer and an intermediate type, cut after 5000 bytes; exhaustive")
	for _, n := range []uint32{1 << 28, 1<<31 - 1, 1<<32 - 1} {
		for _, typ := range []byte{wire.SRow, wire.SStmtExecuteOk} {
			for _, have := range []int{5000} {
				hx.Each(t, func(c *hx.Case) {
					m := wire.Message(typ, make([]byte, have))
					binary.LittleEndian.PutUint32(m, n)
					c.NonTrivial(fmt.Sprint(n, typ, have))
					c.Sample(func() string { return fmt.Sprintf("type %d claims %d bytes, %d follow", typ, n, have) })
					fc := &fake.Conn{In: append(wire.Message(wire.SStmtExecuteOk, nil), m...), End: io.EOF}
					unit := append(wire.Message(wire.StmtExecute, nil), wire.Message(wire.StmtExecute, nil)...)
					var r []netx.Response
					var err error
					func() {
						defer func() {
							if p := recover(); p != nil {
								t.Fatalf("panic: %v", p)
							}
						}()
						r, err = connection.New(fc).Send(context.Background(), unit)
					}()
					ok := &fake.Answer{}
					if e := broken(r, err, "", []*fake.Answer{ok, ok}, 1); e != nil {
						t.Fatalf("type %d claims %d bytes: %v", typ, n, e)
					}
					runtime.GC()
				})
			}
		}
	}
}

// Lengths with one bit too many, after which the stream ends.
func TestLengthBits(t *testing.T) {
	hx.Rule(t, "3 messages, one of whose answers (OK without or with content, an error, a row and OK, a notice and OK) has in a length one more bit of 2^8 to 2^30 set than it should have, the stream being otherwise complete; exhaustive")
	hx.Exhaustive(t)
	ok := wire.Message(wire.SStmtExecuteOk, nil)
	unit := append(append(wire.Message(wire.StmtExecute, nil), wire.Message(wire.StmtExecute, nil)...), wire.Message(wire.StmtExecute, nil)...)
	cat := func(b ...[]byte) []byte {
		var r []byte
		for _, x := range b {
			r = append(r, x...)
		}
		return r
	}
	forms := [][]byte{
		ok,
		wire.Message(wire.SOk, []byte{0x0a, 2, 'o', 'k'}),
		(&fake.SrvErr{Code: 1062, State: "23000", Msg: "duplicate"}).Frame(),
		cat(wire.Message(wire.SRow, []byte{0x0a, 1, 2}), ok),
		cat(wire.Message(wire.SNotice, wire.NoticePayload(1, 2, nil)), ok),
	}
	for bit := uint(8); bit <= 30; bit++ {
		for f, form := range forms {
			if bit > 28 && f > 0 {
				continue
			}
			for at := 0; at < 3; at++ {
				hx.Each(t, func(c *hx.Case) {
					bad := append([]byte(nil), form...)
					binary.LittleEndian.PutUint32(bad, binary.LittleEndian.Uint32(bad)|1<<bit)
					in := cat(bytes.Repeat(ok, at), bad, bytes.Repeat(ok, 2-at))
					c.NonTrivial(fmt.Sprint(bit, f, at))
					c.Sample(func() string { return fmt.Sprintf("2^%d added to the length of form %d, answer %d", bit, f, at) })
					r, err, p := send(&fake.Conn{In: in, End: io.EOF}, unit, false)
					a := &fake.Answer{}
					if e := broken(r, err, p, []*fake.Answer{a, a, a}, at); e != nil {
						t.Fatalf("2^%d added to the length of form %d, answer %d: %v", bit, f, at, e)
					}
					if bit > 24 {
						runtime.GC()
					}
				})
			}
		}
	}
}

type creds struct{ db, user, pass string }

func (c creds) UserName() string { return c.user }
func (c creds) Password() string { return c.pass }
func (c creds) Database() string { return c.db }

// Authentication over a stream that ends or refuses anywhere.
func TestAuthenticate(t *testing.T) {
	hx.Check(t, 2500, 25000, "MYSQL41, SHA256_MEMORY and PLAIN exchanges cut at every byte, refused with any error, or answered by a request the mechanism does not expect; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		cr := creds{"db", "user", "secret"}
		k := g.Pick(3, "mech")
		st := []authentication.Starter{mysql41.New(), sha256.New(), plain.New()}[k]
		var stream []byte
		notice := func(label string) {
			for i, n := 0, g.Int(0, 2, label); i < n; i++ {
				stream = append(stream, fake.Intermediate(g, wire.SNotice, false, label)...)
			}
		}
		var complete []int // prefixes after which authentication has succeeded
		notice("n1")
		if k < 2 {
			stream = append(stream, wire.Message(wire.SAuthenticateContinue, wire.AuthPayload(gen.Pattern(20, byte(g.Int(0, 255, "a")), 3)))...)
			notice("n2")
		}
		kind := g.Pick(4, "kind")
		switch kind {
		case 0, 1:
			stream = append(stream, fake.NewErr(g, kind == 1, false, "err").Frame()...)
		case 2:
			stream = append(stream, wire.Message(wire.SAuthenticateContinue, wire.AuthPayload([]byte("again")))...)
		case 3:
			stream = append(stream, wire.Message(wire.SAuthenticateOk, nil)...)
			complete = append(complete, len(stream))
		}
		chunk, how := fake.Chunker(g, "chunk")
		c.Class([]string{"refused", "refused fatally", "one request too many", "accepted"}[kind])
		key := fmt.Sprint(k, kind, how, stream)
		c.NonTrivial(key)
		c.Sample(func() string { return fmt.Sprintf("mechanism %d, outcome %d, %d bytes, %s", k, kind, len(stream), how) })
		for pos := 0; pos <= len(stream); pos++ {
			fc := &fake.Conn{In: stream[:pos], Chunk: chunk, End: io.EOF}
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						t.Fatalf("cut at %d: panic: %v", pos, p)
					}
				}()
				err = connection.New(fc).Authenticate(context.Background(), cr, st)
			}()
			want := len(complete) > 0 && pos >= complete[0]
			if want && err != nil {
				t.Fatalf("accepted, but: %v", err)
			}
			if !want && err == nil {
				t.Fatalf("mechanism %d: authentication reported as successful on %d of %d bytes of a stream that does not accept it (outcome %d)", k, pos, len(stream), kind)
			}
		}
	})
}
