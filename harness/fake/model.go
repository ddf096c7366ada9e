package fake

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"

	"xtverif/gen"
	"xtverif/wire"
)

// Effect ids are the integers from FirstEffect on: a statement that carries one as an
// argument or literal records it in the database.
const FirstEffect = 1 << 20

// DB is the model database: how often each effect was committed.
type DB struct {
	mu        sync.Mutex
	Committed map[int]int
	Conns     []*Sess
	Bad       string // what the model cannot make sense of
	plan      func(unit []byte) Plan
	Refuse    error // connecting fails with this
	Deadline  error // setting a deadline fails with this
}

// NewDB makes one. plan gives the faults of each unit a client writes.
func NewDB(plan func(unit []byte) Plan) *DB {
	return &DB{Committed: map[int]int{}, plan: plan}
}

// Statement faults.
const (
	Fine      = iota
	Refused   // the statement fails, the transaction stays
	Deadlock  // the statement fails and the server rolls the whole transaction back
	Fatal     // a fatal error, the session ends
	HangUp    // the session ends without an answer
	KillAfter // the message is processed and answered, then the session ends
)

// FaultNames names them.
var FaultNames = []string{"fine", "refused", "deadlock", "fatal", "hang up", "killed after"}

// Plan is what goes wrong in one unit.
type Plan struct {
	Faults   map[int]int // message number -> fault
	WriteN   int         // the write fails after so many bytes; -1: it does not
	WriteErr error
	ReadN    int // the connection breaks after so many bytes of the answers; -1: it does not
	ReadErr  error
	Chunk    func(int) int
	Notices  int // every so many messages a notice precedes the answer; 0: never
}

type block struct {
	noError bool
	failed  bool
}

// Sess is a session of the model server, and the net.Conn of its client.
type Sess struct {
	db      *DB
	ID      int
	open    bool // a transaction is open
	pending map[int]int
	blocks  []block
	dead    bool
	Closed  int
	Units   int
	out     []byte
	plan    Plan
	read    int
	ends    int
	prep    map[uint32]bool
}

// New connects.
func (db *DB) New(context.Context) (netx.Conn, error) {
	db.mu.Lock()
	defer db.mu.Unlock()
	if db.Refuse != nil {
		return nil, db.Refuse
	}
	s := &Sess{db: db, ID: len(db.Conns), pending: map[int]int{}, prep: map[uint32]bool{}}
	db.Conns = append(db.Conns, s)
	return connection.New(s), nil
}

func (s *Sess) bad(format string, args ...interface{}) {
	if s.db.Bad == "" {
		s.db.Bad = fmt.Sprintf("session %d: ", s.ID) + fmt.Sprintf(format, args...)
	}
}

func (s *Sess) rollback() {
	s.pending = map[int]int{}
	s.open = false
}

func (s *Sess) commit() {
	for k, n := range s.pending {
		s.db.Committed[k] += n
	}
	s.rollback()
}

func (s *Sess) end() {
	s.dead = true
	s.rollback()
}

// SetDeadline fails while the database's Deadline is set.
func (s *Sess) SetDeadline(time.Time) error {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	return s.db.Deadline
}

// Write delivers messages, which the server processes at once.
func (s *Sess) Write(b []byte) (int, error) {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	if s.Closed > 0 {
		return 0, net.ErrClosed
	}
	if s.dead {
		return 0, errors.New("write: broken pipe")
	}
	s.read, s.ends = 0, 0
	s.Units++
	s.plan = s.db.plan(b)
	n, err := len(b), error(nil)
	if s.plan.WriteN >= 0 && s.plan.WriteN < n {
		n, err = s.plan.WriteN, s.plan.WriteErr
	}
	s.serve(b[:n])
	return n, err
}

func (s *Sess) serve(b []byte) {
	for i := 0; len(b) >= 5 && !s.dead; i++ {
		l := int(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
		if l < 1 || len(b) < 4+l {
			return
		}
		fr := wire.Frame{Type: int(b[4]), Payload: b[5 : 4+l]}
		b = b[4+l:]
		m, err := wire.Decode(fr)
		if err != nil {
			s.bad("message %d: %v", i, err)
			s.end()
			return
		}
		if s.plan.Notices > 0 && i%s.plan.Notices == 0 {
			s.out = append(s.out, wire.Message(wire.SNotice, wire.NoticePayload(3, 2, []byte("x")))...)
		}
		s.one(m, s.plan.Faults[i])
	}
}

func (s *Sess) ok(m wire.Msg) {
	s.out = append(s.out, wire.Message(Terminal(byte(m.Type)), nil)...)
}

func (s *Sess) refuse(code uint32, fatal bool, msg string) {
	s.out = append(s.out, (&SrvErr{Code: code, Fatal: fatal, State: "HY000", Msg: msg}).Frame()...)
	if n := len(s.blocks); n > 0 && s.blocks[n-1].noError {
		s.blocks[n-1].failed = true
	}
}

// one processes a message.
func (s *Sess) one(m wire.Msg, fault int) {
	switch fault {
	case HangUp:
		s.end()
		return
	case Fatal:
		s.refuse(1053, true, "Server shutdown in progress")
		s.end()
		return
	}
	top := len(s.blocks) - 1
	failed := top >= 0 && s.blocks[top].failed
	switch {
	case m.Type == wire.ExpectOpen:
		nb := block{}
		if m.Ctx == 0 && top >= 0 { // copy the previous block's conditions
			nb = s.blocks[top]
		}
		for _, c := range m.Conds {
			if c.Key != 1 {
				s.bad("unknown condition %v", c)
			}
			nb.noError = c.Op == 0 && (c.Value == "" || c.Value == "1")
		}
		nb.failed = failed
		s.blocks = append(s.blocks, nb)
		if failed {
			s.refuse(5159, false, "Expectation failed: no_error")
		} else {
			s.ok(m)
		}
	case m.Type == wire.ExpectClose:
		if top < 0 {
			s.refuse(5158, false, "Expect block currently not open")
			break
		}
		s.blocks = s.blocks[:top]
		if failed {
			s.refuse(5159, false, "Expectation failed: no_error")
		} else {
			s.ok(m)
		}
	case failed:
		s.refuse(5159, false, "Expectation failed: no_error")
	default:
		s.statement(m, fault)
	}
	if fault == KillAfter {
		s.end()
	}
}

func effectsOf(e *wire.Expr, out map[int]int) {
	if e == nil {
		return
	}
	if e.Kind == wire.Literal {
		effect(e.Lit, out)
	}
	for i := range e.Params {
		effectsOf(&e.Params[i], out)
	}
}

func effect(a wire.Scalar, out map[int]int) {
	switch {
	case a.Type == wire.Sint && a.Int >= FirstEffect:
		out[int(a.Int)]++
	case a.Type == wire.Uint && a.Uint >= FirstEffect:
		out[int(a.Uint)]++
	}
}

func (s *Sess) statement(m wire.Msg, fault int) {
	sql := ""
	if m.Type == wire.StmtExecute {
		sql = gen.NormSQL(m.Stmt)
	}
	if fault == Refused || fault == Deadlock {
		if fault == Deadlock || sql == "COMMIT" {
			s.rollback()
		}
		s.refuse(1213, false, "Deadlock found when trying to get lock")
		return
	}
	switch {
	case sql == "COMMIT":
		s.commit()
	case sql == "ROLLBACK":
		s.rollback()
	case sql == "START TRANSACTION" || sql == "START TRANSACTION WITH CONSISTENT SNAPSHOT" || sql == "BEGIN":
		s.commit() // implicitly
		s.open = true
	case strings.HasPrefix(sql, "SET TRANSACTION ISOLATION LEVEL "):
		if s.open {
			s.refuse(1568, false, "Transaction characteristics can't be changed while a transaction is in progress")
			return
		}
	case m.Type == wire.Prepare:
		s.prep[m.ID] = true
	case m.Type == wire.Deallocate:
		if !s.prep[m.ID] {
			s.refuse(5110, false, "Statement was not prepared")
			return
		}
		delete(s.prep, m.ID)
	case m.Type == wire.Execute && !s.prep[m.ID]:
		s.refuse(5110, false, "Statement was not prepared")
		return
	default:
		for _, a := range m.Args {
			effect(a, s.pending)
		}
		for i := range m.Rows {
			for j := range m.Rows[i] {
				effectsOf(&m.Rows[i][j], s.pending)
			}
		}
		for i := range m.Sets {
			effectsOf(m.Sets[i].Value, s.pending)
		}
		effectsOf(m.Criteria, s.pending)
		if !s.open { // autocommit
			s.commit()
		}
	}
	s.ok(m)
}

// Read gives answers.
func (s *Sess) Read(b []byte) (int, error) {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	if s.Closed > 0 {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(s.out)
	if s.plan.ReadN >= 0 && n > s.plan.ReadN-s.read {
		n = s.plan.ReadN - s.read
	}
	if n <= 0 {
		if s.ends++; s.ends > 200 {
			panic(Spinning)
		}
		switch {
		case s.plan.ReadN >= 0 && s.read >= s.plan.ReadN:
			return 0, s.plan.ReadErr
		case s.dead:
			return 0, io.EOF
		}
		s.bad("the client waits for an answer the server does not owe")
		return 0, ErrStarved
	}
	if n > len(b) {
		n = len(b)
	}
	if s.plan.Chunk != nil {
		if k := s.plan.Chunk(n); k >= 1 && k < n {
			n = k
		}
	}
	copy(b, s.out[:n])
	s.out = s.out[n:]
	s.read += n
	return n, nil
}

// Close ends the session: the server rolls back what is not committed.
func (s *Sess) Close() error {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	s.Closed++
	s.end()
	return nil
}

// Count is how often an effect was committed.
func (db *DB) Count(id int) int {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.Committed[id]
}

func (s *Sess) SetReadDeadline(t time.Time) error  { return nil }
func (s *Sess) SetWriteDeadline(t time.Time) error { return nil }
func (s *Sess) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (s *Sess) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
