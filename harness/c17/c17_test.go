package c17

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// source draws the shape of units: from rapid, or from a seeded generator for the
// goroutines of the concurrent histories.
type source interface {
	Int(lo, hi int, label string) int
}

type seeded struct{ *rand.Rand }

func (s seeded) Int(lo, hi int, _ string) int { return lo + s.Intn(hi-lo+1) }

func chance(g source, pct int, label string) bool { return g.Int(0, 99, label) >= 100-pct }

// tx is a transaction inside a no-error block, with the effects its statements carry.
type tx struct {
	ids    []int
	commit int // which COMMIT of the unit is its own
}

// unit is a generated unit of work.
type unit struct {
	x       *xtorm.XPipe
	txs     []*tx
	commits int
	bytes   []byte
	frames  []wire.Frame
	at      []int // positions of the COMMITs
	desc    []string
	loose   bool // contains a transaction that is not in a block, or one left open
}

type builder struct {
	g     source
	next  func() int
	u     *unit
	small bool // no bulky statements, nor many
}

// write makes one statement that carries effects.
func (d *builder) write(b *xtorm.Builder, t *tx) {
	id := func() int {
		n := d.next()
		if t != nil {
			t.ids = append(t.ids, n)
		}
		return n
	}
	text := "x"
	if !d.small && chance(d.g, 8, "bulky") {
		text = strings.Repeat("x", 1<<uint(d.g.Int(5, 16, "bytes")))
	}
	switch k := d.g.Int(0, 8, "stmt"); k {
	case 0, 1:
		if len(text) > 1 {
			b.StmtExecute("UPDATE t SET a = ?, v = ? WHERE b = 1", id(), text)
			return
		}
		b.StmtExecute("UPDATE t SET a = ? WHERE b = 1", id())
	case 2:
		var rows [][]interface{}
		for i, n := 0, d.g.Int(1, 3, "rows"); i < n; i++ {
			rows = append(rows, []interface{}{id(), text})
		}
		b.Insert("t", []string{"id", "v"}, rows)
	case 3:
		b.InsertRow("t", []string{"id"}, []interface{}{id()})
	case 4:
		b.Update("t", xtorm.Eq(xtorm.Column("id"), id()), map[string]interface{}{"v": text})
	case 5:
		b.Delete("t", xtorm.Eq(xtorm.Column("id"), id()))
	case 6:
		n := uint32(id())
		b.Prepare(n, "UPDATE t SET a = ?")
		b.Execute(n, int(n))
		b.Deallocate(n)
	case 7:
		b.InsertF("t", []string{"id"}, func(i *xtorm.Insert) error {
			for k, n := 0, d.g.Int(1, 3, "rows"); k < n; k++ {
				i.RowV(id())
			}
			return nil
		})
	case 8:
		b.UpdateF("t", nil, func(u *xtorm.Update) error {
			u.Set("a", id())
			return nil
		})
	}
}

func (d *builder) open() xtorm.OpenContext {
	if d.g.Int(0, 1, "ctx") == 0 {
		return xtorm.OpenExpectCtxCopyPrev
	}
	return xtorm.OpenExpectCtxEmpty
}

// body is what a transaction does, possibly with nested blocks.
func (d *builder) body(b *xtorm.Builder, t *tx, depth int) {
	n := d.g.Int(0, 4, "writes")
	if !d.small && depth == 0 && chance(d.g, 3, "many") {
		n = d.g.Int(5, 60, "writes2")
	}
	for i := 0; i < n; i++ {
		if depth < 2 && chance(d.g, 15, "nest") {
			b.ExpectFailOnError(d.open(), func(b *xtorm.Builder) error { d.body(b, t, depth+1); return nil })
			continue
		}
		d.write(b, t)
	}
}

func (d *builder) tx(b *xtorm.Builder, inBlock bool) {
	t := &tx{}
	level := xtorm.IsolationLevel(d.g.Int(0, 5, "level"))
	b.Tx(level, func(b *xtorm.Builder) error { d.body(b, t, 0); return nil })
	t.commit = d.u.commits
	d.u.commits++
	if inBlock {
		d.u.txs = append(d.u.txs, t)
		d.u.desc = append(d.u.desc, fmt.Sprintf("tx(level %d, %d effects)", level, len(t.ids)))
	} else {
		d.u.loose = true
		d.u.desc = append(d.u.desc, "tx without block")
	}
}

// build makes a unit.
func build(g source, next func() int, small bool) (*unit, error) {
	u := &unit{x: xtorm.New(g.Int(0, 300, "cap"))}
	d := &builder{g, next, u, small}
	b := &u.x.Builder
	parts := g.Int(1, 2, "parts")
	for i := 0; i < parts; i++ {
		// A block that holds transactions ends its unit: whatever came after it would run
		// although the block failed.
		k := g.Int(0, 9, "part")
		if k < 7 && i < parts-1 {
			k = 7
		}
		switch {
		case k < 7: // a block with one or two transactions
			u.desc = append(u.desc, "block[")
			b.ExpectFailOnError(d.open(), func(b *xtorm.Builder) error {
				if chance(g, 20, "pre") {
					d.write(b, nil)
				}
				if chance(g, 15, "deeper") {
					b.ExpectFailOnError(d.open(), func(b *xtorm.Builder) error { d.tx(b, true); return nil })
				} else {
					d.tx(b, true)
				}
				if chance(g, 20, "post") {
					d.write(b, nil)
				}
				if chance(g, 20, "second") {
					d.tx(b, true)
				}
				return nil
			})
			u.desc = append(u.desc, "]")
		case k < 8:
			d.write(b, nil)
			u.desc = append(u.desc, "autocommitted")
		case k < 9:
			d.tx(b, false)
		default: // an application that manages its own transaction, and leaves it open
			b.StmtExecute("START TRANSACTION")
			d.write(b, nil)
			u.loose = true
			u.desc = append(u.desc, "left open")
		}
	}
	rec := &gen.Recorder{}
	if _, err := u.x.Send(context.Background(), rec); err != nil || len(rec.Units) != 1 {
		return nil, fmt.Errorf("the unit cannot be sent: %v", err)
	}
	u.bytes = rec.Units[0]
	var err error
	if u.frames, err = wire.Frames(u.bytes); err != nil {
		return nil, err
	}
	for i, f := range u.frames {
		m, err := wire.Decode(f)
		if err != nil {
			return nil, err
		}
		if m.Type == wire.StmtExecute && gen.NormSQL(m.Stmt) == "COMMIT" {
			u.at = append(u.at, i)
		}
	}
	if len(u.at) != u.commits {
		return nil, fmt.Errorf("%d transactions, %d commits: %v", u.commits, len(u.at), u.desc)
	}
	return u, nil
}

var (
	errWrites = []error{errors.New("write: broken pipe"), &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, io.ErrShortWrite, os.ErrDeadlineExceeded, net.ErrClosed}
	errReads  = append([]error{errors.New("read: connection reset by peer"), &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}}, fake.Fails...)
)

func errWrite(g source) error { return errWrites[g.Int(0, len(errWrites)-1, "write error")] }
func errRead(g source) error  { return errReads[g.Int(0, len(errReads)-1, "read error")] }

// plan draws what goes wrong with the unit, and where.
func plan(g source, u *unit, c func(string)) fake.Plan {
	p := fake.Plan{WriteN: -1, ReadN: -1, Notices: g.Int(0, 3, "notices")}
	if k := g.Int(0, 9, "chunk"); k > 0 {
		p.Chunk = func(int) int { return k }
	}
	n := len(u.frames)
	// Only what the server executes can be refused: blocks themselves are not.
	at := func() int {
		for {
			i := g.Int(0, n-1, "at")
			if len(u.at) > 0 && chance(g, 25, "atcommit") {
				i = u.at[g.Int(0, len(u.at)-1, "which")]
				if chance(g, 30, "next") && i+1 < n {
					i++
				}
			}
			if t := u.frames[i].Type; t != wire.ExpectOpen && t != wire.ExpectClose {
				return i
			}
		}
	}
	p.Faults = map[int]int{}
	switch k := g.Int(0, 9, "fault"); k {
	case 0, 1, 2:
		for i, m := 0, g.Int(1, 3, "refusals"); i < m; i++ {
			p.Faults[at()] = fake.Refused + g.Int(0, 1, "deadlock")
		}
		c("statement fails")
	case 3:
		p.Faults[g.Int(0, n-1, "at")] = fake.Fatal
		c("fatal")
	case 4:
		p.Faults[g.Int(0, n-1, "at")] = fake.HangUp
		c("server hangs up")
	case 5:
		p.Faults[g.Int(0, n-1, "at")] = fake.KillAfter
		c("server dies after a message")
	case 6:
		p.WriteN, p.WriteErr = g.Int(0, len(u.bytes)-1, "writen"), errWrite(g)
		c("write breaks")
	case 7:
		p.ReadN, p.ReadErr = g.Int(0, 8*n, "readn"), errRead(g)
		c("answers lost")
	case 8: // two things go wrong
		p.Faults[at()] = fake.Refused + g.Int(0, 1, "deadlock")
		p.ReadN, p.ReadErr = g.Int(0, 12*n, "readn"), errRead(g)
		c("statement fails, then answers lost")
	default:
		c("nothing fails")
	}
	return p
}

// outcome bounds how often a transaction may have taken effect.
type outcome struct{ min, max int }

// judge interprets what the caller saw of one Send.
func judge(u *unit, t *tx, r []netx.Response, err error, o *outcome) error {
	i := u.at[t.commit]
	if err == nil && len(r) != len(u.frames) {
		return fmt.Errorf("%d responses to %d messages", len(r), len(u.frames))
	}
	if err == nil || len(r) > i+1 {
		if _, bad := r[i].(error); !bad {
			o.min++
			o.max++
		}
		return nil
	}
	o.max++ // the answer was lost: either
	return nil
}

// verify compares the database with what the callers were told.
func verify(db *fake.DB, u *unit, outs map[*tx]*outcome) error {
	for k, t := range u.txs {
		if len(t.ids) == 0 {
			continue
		}
		o := outs[t]
		n := db.Count(t.ids[0])
		for _, id := range t.ids {
			if m := db.Count(id); m != n {
				return fmt.Errorf("transaction %d took effect in part: of its %d effects, the first happened %d times, another %d times", k, len(t.ids), n, m)
			}
		}
		if n < o.min || n > o.max {
			return fmt.Errorf("transaction %d took effect %d times, the caller was told it did %d to %d times", k, n, o.min, o.max)
		}
	}
	return nil
}

func counter() func() int {
	n := fake.FirstEffect
	return func() int { n++; return n }
}

// Histories of units on one pool, each failing in its own way.
func TestHistories(t *testing.T) {
	hx.Check(t, 20000, 250000, "histories of 1 to 8 units (no-error blocks with one or two transactions, nested blocks, statements before and after, autocommitted statements, transactions without a block, transactions left open), some sent again, through a pool of 1 to 3 real connections to a model server with transactions and expectation blocks; per unit: statements refused, deadlocks, failing commits, fatal errors, the server ending the session at or after any message, the write breaking after any byte, the answers breaking off after any byte, connecting or setting the deadline failing; non-trivial: a unit with a transaction of at least 2 effects failed in some way", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		next := counter()
		var cur fake.Plan
		once := false // the fault is met by the first attempt only, should there be several
		db := fake.NewDB(func([]byte) fake.Plan {
			p := cur
			if once {
				cur = fake.Plan{WriteN: -1, ReadN: -1}
			}
			return p
		})
		var p pool.Pool = fifoch.New(db, g.Int(0, 3, "size"))
		outs := map[*tx]*outcome{}
		var units []*unit
		var desc []string
		nontrivial := false
		for i, n := 0, g.Int(1, 8, "units"); i < n; i++ {
			var u *unit
			if len(units) > 0 && g.Chance(20, "again") {
				u = units[g.Pick(len(units), "which")]
			} else {
				var err error
				if u, err = build(g, next, false); err != nil {
					t.Fatalf("%v", err)
				}
				units = append(units, u)
				for _, x := range u.txs {
					outs[x] = &outcome{}
				}
			}
			how := ""
			note := func(s string) { how = s; c.Class(s) }
			cur = plan(g, u, note)
			once = g.Chance(50, "once")
			db.Refuse, db.Deadline = nil, nil
			if g.Chance(3, "noconn") {
				db.Refuse = errors.New("connection refused")
			}
			if g.Chance(3, "nodeadline") {
				db.Deadline = errors.New("deadline")
			}
			ctx, cancel := context.WithCancel(context.Background())
			if g.Chance(3, "cancelled") {
				cancel()
			}
			desc = append(desc, fmt.Sprintf("%v: %s %v", u.desc, how, cur.Faults))
			r, err := u.x.Send(ctx, p)
			cancel()
			for _, x := range u.txs {
				if e := judge(u, x, r, err, outs[x]); e != nil {
					t.Fatalf("%s: %v", strings.Join(desc, "\n"), e)
				}
				nontrivial = nontrivial || how != "nothing fails" && len(x.ids) >= 2
			}
			if db.Bad != "" {
				t.Fatalf("%s: %s", strings.Join(desc, "\n"), db.Bad)
			}
			for _, v := range units {
				if e := verify(db, v, outs); e != nil {
					t.Fatalf("after\n%s\n(responses %v, error %v): %v: %v", strings.Join(desc, "\n"), r, err, v.desc, e)
				}
			}
		}
		p.Close(context.Background())
		for _, v := range units {
			if e := verify(db, v, outs); e != nil {
				t.Fatalf("after\n%s\nand closing the pool: %v", strings.Join(desc, "\n"), e)
			}
		}
		if nontrivial {
			key := strings.Join(desc, "; ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Every single fault at every message, and at every byte, of generated units; a healthy
// unit follows on the same pool.
func TestEveryFault(t *testing.T) {
	hx.Check(t, 250, 4000, "one unit with a transaction in a block, run again for each fault (refused, deadlock, fatal, hang up, killed after) at each of its messages, for the write breaking after each byte, and for the answers breaking off after each byte; a unit of another transaction goes before and after it on the same pool; every case is one unit, non-trivial when its transaction has at least 2 effects", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		next := counter()
		var us [3]*unit
		for i := range us {
			for us[i] == nil || len(us[i].txs) == 0 || i != 1 && us[i].loose {
				u, err := build(g, next, true)
				if err != nil {
					t.Fatalf("%v", err)
				}
				us[i] = u
			}
		}
		u := us[1]
		healthy := fake.Plan{WriteN: -1, ReadN: -1}
		runs := 0
		run := func(pl fake.Plan, what string) {
			runs++
			cur := healthy
			db := fake.NewDB(func([]byte) fake.Plan { return cur })
			p := fifoch.New(db, 1)
			outs := map[*tx]*outcome{}
			for i, v := range us {
				cur = healthy
				if i == 1 {
					cur = pl
				}
				for _, x := range v.txs {
					outs[x] = &outcome{}
				}
				r, err := v.x.Send(context.Background(), p)
				dead := pl.Faults[len(u.frames)-1] == fake.KillAfter // noticed by the next unit only
				if i == 0 || i == 2 && !u.loose && !dead {
					for k, rr := range r {
						if rr != nil {
							t.Fatalf("%v with %s: unit %d after it: message %d: %v", u.desc, what, i, k, rr)
						}
					}
					if err != nil {
						t.Fatalf("%v with %s: unit %d: %v", u.desc, what, i, err)
					}
				}
				for _, x := range v.txs {
					if e := judge(v, x, r, err, outs[x]); e != nil {
						t.Fatalf("%v with %s: %v", u.desc, what, e)
					}
				}
				if db.Bad != "" {
					t.Fatalf("%v with %s: %s", u.desc, what, db.Bad)
				}
			}
			for i, v := range us {
				if e := verify(db, v, outs); e != nil {
					t.Fatalf("%v with %s: unit %d (%v): %v", u.desc, what, i, v.desc, e)
				}
			}
		}
		for i, f := range u.frames {
			for k := fake.Refused; k <= fake.KillAfter; k++ {
				if k <= fake.Deadlock && (f.Type == wire.ExpectOpen || f.Type == wire.ExpectClose) {
					continue
				}
				run(fake.Plan{WriteN: -1, ReadN: -1, Faults: map[int]int{i: k}}, fmt.Sprintf("%s at message %d", fake.FaultNames[k], i))
			}
		}
		for i := 0; i < len(u.bytes); i++ {
			run(fake.Plan{WriteN: i, WriteErr: errWrites[i%len(errWrites)], ReadN: -1}, fmt.Sprintf("the write breaking after %d bytes", i))
		}
		k0 := g.Pick(len(errReads), "read error")
		for i := 0; i <= 5*len(u.frames); i++ {
			run(fake.Plan{WriteN: -1, ReadN: i, ReadErr: errReads[(i+k0)%len(errReads)]}, fmt.Sprintf("the answers breaking off after %d bytes", i))
		}
		for _, x := range u.txs {
			if len(x.ids) >= 2 {
				c.NonTrivial(fmt.Sprint(u.desc, u.frames))
				c.Sample(func() string { return fmt.Sprintf("%v: %d faults", u.desc, runs) })
			}
		}
	})
}

// Goroutines share the pool.
func TestConcurrent(t *testing.T) {
	hx.Check(t, 2000, 30000, "2 to 6 goroutines sending 1 to 8 units each, with the same kinds of faults, through one pool, which is closed at some point in some cases; non-trivial: more units than connections", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		var mu sync.Mutex
		plans := map[string]fake.Plan{}
		db := fake.NewDB(func(b []byte) fake.Plan {
			mu.Lock()
			defer mu.Unlock()
			return plans[string(b)]
		})
		size, workers, per := g.Int(1, 4, "size"), g.Int(2, 6, "workers"), g.Int(1, 8, "per")
		closing := g.Chance(25, "closing")
		seed := int64(g.Int(0, 1<<30, "seed"))
		p := fifoch.New(db, size)
		next0 := counter()
		next := func() int { mu.Lock(); defer mu.Unlock(); return next0() }
		type sent struct {
			u    *unit
			outs map[*tx]*outcome
		}
		var all []sent
		var failure error
		fail := func(err error) {
			mu.Lock()
			defer mu.Unlock()
			if failure == nil {
				failure = err
			}
		}
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				r := seeded{rand.New(rand.NewSource(seed + int64(w)))}
				for i := 0; i < per; i++ {
					u, err := build(r, next, false)
					if err != nil {
						fail(err)
						return
					}
					pl := plan(r, u, func(string) {})
					mu.Lock()
					plans[string(u.bytes)] = pl
					mu.Unlock()
					res, err := u.x.Send(context.Background(), p)
					outs := map[*tx]*outcome{}
					for _, x := range u.txs {
						outs[x] = &outcome{}
						if e := judge(u, x, res, err, outs[x]); e != nil {
							fail(e)
						}
					}
					mu.Lock()
					all = append(all, sent{u, outs})
					mu.Unlock()
				}
			}(w)
		}
		if closing {
			p.Close(context.Background())
		}
		wg.Wait()
		if !closing {
			p.Close(context.Background())
		}
		if failure == nil && db.Bad != "" {
			failure = errors.New(db.Bad)
		}
		for _, s := range all {
			if failure == nil {
				failure = verify(db, s.u, s.outs)
			}
		}
		desc := fmt.Sprintf("pool of %d, %d goroutines of %d units, seed %d, closed early %v: %d connections", size, workers, per, seed, closing, len(db.Conns))
		if failure != nil {
			t.Fatalf("%s: %v", desc, failure)
		}
		if len(db.Conns) < workers*per {
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		}
	})
}
