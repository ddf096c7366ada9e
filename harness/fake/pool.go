package fake

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"

	"xtverif/gen"
)

type ctxKey struct{}

// Result is what a unit on a connection comes to.
type Result struct {
	R   []netx.Response
	Err error
}

// Failed tells whether the unit failed.
func (r Result) Failed() bool {
	if r.Err != nil {
		return true
	}
	for _, x := range r.R {
		if x != nil {
			return true
		}
	}
	return false
}

// Same reports how the results differ.
func (r Result) Same(got []netx.Response, err error) error {
	if r.Err == nil && err != nil || r.Err != nil && !errors.Is(err, r.Err) {
		return fmt.Errorf("error %v, the unit's own is %v", err, r.Err)
	}
	if len(got) != len(r.R) {
		return fmt.Errorf("%d responses, the unit's own are %d", len(got), len(r.R))
	}
	for i := range got {
		if got[i] != r.R[i] {
			return fmt.Errorf("response %d is %v, the unit's own is %v", i, got[i], r.R[i])
		}
	}
	return nil
}

// NewResult draws the outcome of unit id.
func NewResult(g *gen.G, id, failPct int) (Result, string) {
	n := g.Int(1, 6, "nresp")
	if g.Chance(8, "long") {
		n = g.Int(7, 70, "nlong")
	}
	r := Result{R: make([]netx.Response, n)}
	if !g.Chance(failPct, "fails") {
		return r, "succeeds"
	}
	e := &connection.MySqlXError{Code: uint32(1000 + id), SqlState: "HY000", Msg: fmt.Sprint("unit ", id)}
	if g.Chance(50, "code") {
		e.Code = codes[g.Pick(len(codes), "ncode")]
		e.SqlState = []string{"HY000", "23000", "40001", "42000", "", "01000", "00000"}[g.Pick(7, "state")]
	}
	switch g.Pick(5, "how") {
	case 0: // one message refused
		r.R[g.Pick(n, "at")] = e
		if g.Chance(15, "kind of error") {
			// A connection of another kind reports another error.
			r.R[g.Pick(n, "at")] = refusals[g.Pick(len(refusals), "refusal")]
		}
		return r, "one message refused"
	case 1: // the rest of a block refused
		for i := g.Pick(n, "from"); i < n; i++ {
			r.R[i] = e
		}
		return r, "messages refused"
	case 2: // fatal
		e.Severity = mysqlx.Error_FATAL
		r.R = r.R[:g.Int(1, n, "upto")]
		r.R[len(r.R)-1] = e
		r.Err = e
		return r, "fatal error"
	case 3:
		r.Err = fmt.Errorf("unit %d: transport failed", id)
		if g.Chance(60, "cause") {
			r.Err = causes[g.Pick(len(causes), "ncause")]
		}
		if g.Chance(30, "wrapped") {
			r.Err = fmt.Errorf("unit %d: %w", id, r.Err)
		}
		r.R = r.R[:g.Int(0, n, "upto")]
		return r, "transport failed"
	}
	r.Err = context.DeadlineExceeded
	r.R = nil
	return r, "timed out"
}

type plainErr struct{ Msg string }

func (e plainErr) Error() string { return e.Msg }

var refusals = []error{errors.New("refused"), errors.New(""), plainErr{}, &plainErr{"refused"}, io.EOF, &connection.MySqlXError{}, fmt.Errorf("refused: %w", &connection.MySqlXError{Code: 1062})}

// codes are those of common errors, some of which leave a session as it was.
var codes = []uint32{0, 1, 1022, 1040, 1045, 1046, 1048, 1051, 1054, 1062, 1064, 1136, 1146, 1153, 1205, 1213, 1265, 1317, 1451, 1452, 1568, 1792, 1053, 1077, 1105, 1129, 1130, 1152, 1184, 1189, 1203, 1226, 1227, 1250, 1251, 1297, 1298, 1397, 1399, 1698, 1820, 1862, 1884, 1927, 2006, 2013, 3024, 3118, 3150, 3159, 3169, 3572, 4031, 5000, 5001, 5002, 5003, 5004, 5010, 5011, 5012, 5013, 5014, 5015, 5115, 5159, 5160, 5168, 10000, 1<<32 - 1}

// causes are errors of the transport.
var causes = []error{context.Canceled, os.ErrDeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, io.ErrClosedPipe, io.ErrShortWrite,
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")},
	connection.ErrUnexpectedAuthenticateContinue, &connection.ErrRequireAuthenticateContinue{}, bufio.ErrBufferFull,
	&connection.MySqlXError{Code: 1062, SqlState: "23000", Msg: "not fatal, but the unit's"}}

// PConn is a connection of the pool under control of the checker.
type PConn struct {
	w      *World
	id     int
	busy   bool
	closed bool
	served int
	err    error // of Close
}

// Event is a stop of a goroutine of the pool at a hook, or its end.
type Event struct {
	op   *SendOp
	kind string // new, send, done, closed
	conn *PConn
	r    []netx.Response
	err  error
	pan  interface{}
}

// SendOp is one Send of the pool.
type SendOp struct {
	ID     int
	unit   []byte
	state  string // new, send, done
	conn   *PConn
	want   Result
	resume chan interface{} // for hook new: error or nil; for hook send: Result
	late   bool             // started when the pool was closed
	cancel context.CancelFunc
	dead   bool // context cancelled before the start
	midway bool // ... or after it
}

// World is a pool whose connector and connections are controlled: one goroutine runs at a time.
type World struct {
	mu    sync.Mutex
	ev    chan Event
	conns []*PConn
	bad   error
	P     pool.Pool
	size  int
	// model
	idle   []*PConn
	closed bool
	maybe  bool // a Close failed: closed or not
	ops    []*SendOp
	open   []*SendOp // stopped at a hook
	Trace  []string
	Stats  map[string]int
	// CloseErr, when set, is what closing every third connection returns.
	CloseErr error
}

// NewWorld makes a pool of the given size.
func NewWorld(size int) *World {
	w := &World{ev: make(chan Event, 64), size: size, Stats: map[string]int{}}
	w.P = fifoch.New(w, size)
	return w
}

func (w *World) fail(format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad == nil {
		w.bad = fmt.Errorf(format, args...)
	}
}

// Bad is the first violation noticed.
func (w *World) Bad() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.bad
}

func (w *World) op(ctx context.Context) *SendOp {
	op, _ := ctx.Value(ctxKey{}).(*SendOp)
	return op
}

// New is the connector's.
func (w *World) New(ctx context.Context) (netx.Conn, error) {
	op := w.op(ctx)
	if op == nil {
		w.fail("connecting with a context that is not the caller's")
		return nil, errors.New("no caller")
	}
	w.ev <- Event{op: op, kind: "new"}
	x := <-op.resume
	if err, ok := x.(error); ok {
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	c := &PConn{w: w, id: len(w.conns)}
	if c.id%3 == 1 {
		c.err = w.CloseErr
	}
	w.conns = append(w.conns, c)
	op.conn = c
	return c, nil
}

// Send is the connection's.
func (c *PConn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	w := c.w
	op := w.op(ctx)
	if op == nil {
		w.fail("connection %d used with a context that is not the caller's", c.id)
		return nil, errors.New("no caller")
	}
	if !bytes.Equal(b, op.unit) {
		w.fail("connection %d: not the bytes of unit %d", c.id, op.ID)
	}
	w.mu.Lock()
	busy, closed := c.busy, c.closed
	c.busy = true
	c.served++
	w.mu.Unlock()
	if busy {
		w.fail("connection %d serves unit %d while it serves another", c.id, op.ID)
	}
	if closed {
		w.fail("connection %d serves unit %d after it was closed", c.id, op.ID)
	}
	w.ev <- Event{op: op, kind: "send", conn: c}
	x := (<-op.resume).(Result)
	w.mu.Lock()
	c.busy = false
	w.mu.Unlock()
	return x.R, x.Err
}

// Close is the connection's.
func (c *PConn) Close() error {
	c.w.mu.Lock()
	busy := c.busy
	c.closed = true
	c.w.mu.Unlock()
	if busy {
		c.w.fail("connection %d is closed while it serves a unit", c.id)
	}
	return c.err
}

// IsSecure is of no consequence.
func (c *PConn) IsSecure() bool { return true }

// blocked is how long an operation may take from one hook to the next.
const blocked = 60 * time.Second

func (w *World) next(what string) (Event, error) {
	select {
	case e := <-w.ev:
		if err := w.Bad(); err != nil {
			return e, err
		}
		if e.pan != nil {
			return e, fmt.Errorf("%s panics: %v", what, e.pan)
		}
		return e, nil
	case <-time.After(blocked):
		buf := make([]byte, 1<<16)
		return Event{}, fmt.Errorf("%s blocks for ever\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

func (w *World) note(format string, args ...interface{}) {
	w.Trace = append(w.Trace, fmt.Sprintf(format, args...))
}

// Start starts a Send and runs it to its first stop. dead: with a cancelled context.
func (w *World) Start(dead bool) error {
	op := &SendOp{ID: len(w.ops), resume: make(chan interface{}), dead: dead}
	op.unit = []byte(fmt.Sprintf("unit %d of the history", op.ID))
	op.late = w.closed
	w.ops = append(w.ops, op)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, op))
	op.cancel = cancel
	if dead {
		cancel()
	}
	w.note("S%d", op.ID)
	go func() {
		var e Event
		defer func() {
			e.pan = recover()
			e.op, e.kind = op, "done"
			w.ev <- e
		}()
		e.r, e.err = w.P.Send(ctx, append([]byte(nil), op.unit...))
	}()
	e, err := w.next("Send")
	if err != nil {
		return err
	}
	if e.op != op {
		return fmt.Errorf("unit %d was started and unit %d moved", op.ID, e.op.ID)
	}
	if op.late && !w.maybe {
		w.Stats["Send after Close"]++
		if e.kind != "done" || !errors.Is(e.err, pool.ErrPoolClosed) {
			return fmt.Errorf("Send on a closed pool: %s, error %v; want ErrPoolClosed", e.kind, e.err)
		}
		if len(e.r) != 0 {
			return fmt.Errorf("Send on a closed pool returned responses")
		}
		op.state = "done"
		return nil
	}
	switch e.kind {
	case "done":
		if dead && errors.Is(e.err, context.Canceled) || w.maybe && errors.Is(e.err, pool.ErrPoolClosed) {
			op.state = "done"
			return nil
		}
		return fmt.Errorf("unit %d: Send returned %v without using a connection", op.ID, e.err)
	case "new":
		if len(w.idle) > 0 && !w.maybe {
			return fmt.Errorf("unit %d: a new connection is made although %d are idle", op.ID, len(w.idle))
		}
		op.state = "new"
	case "send":
		if w.maybe && len(w.idle) == 0 || !w.maybe && (len(w.idle) == 0 || w.idle[0] != e.conn) {
			return fmt.Errorf("unit %d: runs on connection %d, the idle ones are %v", op.ID, e.conn.id, w.ids())
		}
		for i, c := range w.idle {
			if c == e.conn {
				w.idle = append(append([]*PConn(nil), w.idle[:i]...), w.idle[i+1:]...)
				break
			}
		}
		op.state, op.conn = "send", e.conn
		w.Stats["idle connection reused"]++
	}
	w.open = append(w.open, op)
	return nil
}

func (w *World) ids() []int {
	r := []int{}
	for _, c := range w.idle {
		r = append(r, c.id)
	}
	return r
}

// Open is the number of Sends stopped at a hook.
func (w *World) Open() int { return len(w.open) }

// Step resumes the i-th stopped Send. connErr: what connecting comes to; res: what the unit comes to.
func (w *World) Step(i int, connErr error, res Result) error {
	op := w.open[i]
	if op.state == "new" {
		if connErr != nil {
			w.note("connecting fails for %d", op.ID)
			op.resume <- connErr
			e, err := w.next("Send")
			if err != nil {
				return err
			}
			if e.kind != "done" || !errors.Is(e.err, connErr) || len(e.r) != 0 {
				return fmt.Errorf("unit %d: connecting failed with %v; then %s, error %v", op.ID, connErr, e.kind, e.err)
			}
			w.Stats["connecting failed"]++
			return w.remove(i)
		}
		w.note("connected for %d", op.ID)
		op.resume <- nil
		e, err := w.next("Send")
		if err != nil {
			return err
		}
		if e.kind == "done" && op.midway && errors.Is(e.err, context.Canceled) && op.conn.closed {
			return w.remove(i)
		}
		if e.kind != "send" || e.op != op || e.conn != op.conn {
			return fmt.Errorf("unit %d: got a new connection; then %s, error %v", op.ID, e.kind, e.err)
		}
		op.state = "send"
		return nil
	}
	w.note("%d completes (%d responses, err %v, failed %v)", op.ID, len(res.R), res.Err, res.Failed())
	op.want = res
	op.resume <- res
	e, err := w.next("Send")
	if err != nil {
		return err
	}
	if e.kind != "done" || e.op != op {
		return fmt.Errorf("unit %d completed; then %s", op.ID, e.kind)
	}
	if err := res.Same(e.r, e.err); err != nil {
		return fmt.Errorf("unit %d: Send returned %v", op.ID, err)
	}
	c := op.conn
	switch {
	case res.Failed():
		w.Stats["unit failed"]++
		if !c.closed {
			return fmt.Errorf("unit %d failed, its connection %d was not closed", op.ID, c.id)
		}
	case w.maybe:
		if !c.closed {
			w.idle = append(w.idle, c)
		}
	case w.closed:
		w.Stats["unit in flight at Close"]++
		if !c.closed {
			return fmt.Errorf("unit %d completed after Close, its connection %d was not closed", op.ID, c.id)
		}
	case len(w.idle) < w.size:
		if c.closed {
			return fmt.Errorf("unit %d succeeded and %d of %d connections are idle, but its connection was closed", op.ID, len(w.idle), w.size)
		}
		w.idle = append(w.idle, c)
	default:
		w.Stats["pool full"]++
		if !c.closed {
			return fmt.Errorf("unit %d succeeded with %d of %d connections idle, its connection was not closed", op.ID, len(w.idle), w.size)
		}
	}
	return w.remove(i)
}

// Cancel cancels the context of the i-th stopped Send, which notices or not.
func (w *World) Cancel(i int) {
	op := w.open[i]
	w.note("%d is cancelled", op.ID)
	w.Stats["cancelled midway"]++
	op.midway = true
	op.cancel()
}

func (w *World) remove(i int) error {
	w.open[i].state = "done"
	w.open[i].cancel()
	w.open = append(append([]*SendOp(nil), w.open[:i]...), w.open[i+1:]...)
	return w.quiet()
}

// quiet compares the state of every connection with the model.
func (w *World) quiet() error {
	idle := map[*PConn]bool{}
	for _, c := range w.idle {
		idle[c] = true
	}
	used := map[*PConn]bool{}
	for _, op := range w.open {
		if op.conn != nil {
			used[op.conn] = true
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.conns {
		switch {
		case idle[c] || used[c]:
			if c.closed {
				return fmt.Errorf("connection %d is closed while idle or in use", c.id)
			}
		case !c.closed:
			return fmt.Errorf("connection %d is neither in use nor idle nor closed", c.id)
		}
	}
	return nil
}

// Close closes the pool; dead: with a cancelled context.
func (w *World) Close(dead bool) error {
	ctx := context.Background()
	if dead {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	w.note("Close(%v)", dead)
	go func() {
		e := Event{kind: "closed"}
		defer func() {
			e.pan = recover()
			w.ev <- e
		}()
		e.err = w.P.Close(ctx)
	}()
	e, err := w.next("Close")
	if err != nil {
		return err
	}
	if e.kind != "closed" {
		return fmt.Errorf("Close was called and unit %d moved: %s", e.op.ID, e.kind)
	}
	w.Stats["Close"]++
	if w.closed {
		w.Stats["Close again"]++
	}
	if e.err != nil {
		if !dead && (w.CloseErr == nil || !errors.Is(e.err, w.CloseErr)) {
			return fmt.Errorf("Close failed: %v", e.err)
		}
		w.Stats["Close failed"]++
		// Some of the idle connections may have been closed.
		var left []*PConn
		for _, c := range w.idle {
			if !c.closed {
				left = append(left, c)
			}
		}
		w.idle = left
		if !w.closed {
			w.maybe = true
		}
		return nil
	}
	w.closed, w.maybe = true, false
	for _, c := range w.idle {
		if !c.closed {
			return fmt.Errorf("Close returned, idle connection %d is not closed", c.id)
		}
	}
	w.idle = nil
	return w.quiet()
}

// Finish completes every unit, closes the pool and checks that nothing is left.
func (w *World) Finish() error {
	for len(w.open) > 0 {
		if err := w.Step(0, nil, Result{R: make([]netx.Response, 1)}); err != nil {
			return err
		}
	}
	// Once more if closing a connection failed, and was reported.
	for n := 0; n == 0 || n < 40 && w.maybe; n++ {
		if err := w.Close(false); err != nil {
			return err
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.conns {
		if !c.closed {
			return fmt.Errorf("at the end, with the pool closed, connection %d is open", c.id)
		}
	}
	return w.bad
}

// PoolSize draws the size of a pool.
func PoolSize(g *gen.G) int {
	if g.Chance(25, "large") {
		return g.Int(5, 20, "size")
	}
	return g.Int(0, 4, "size")
}

// History draws and runs a history. closePct: how often Close is called.
func (w *World) History(g *gen.G, steps, failPct, closePct int) error {
	if g.Chance(30, "closefails") {
		w.CloseErr = errors.New("closing the connection failed")
		w.Stats["closing connections fails"]++
	}
	width := 6
	if g.Chance(30, "wide") {
		// Many Sends at once, which leave the pool with many idle connections.
		width = w.size + g.Int(0, 3, "width")
		w.Stats["many at once"]++
		for len(w.open) < width {
			if err := w.Start(false); err != nil {
				return err
			}
		}
		for len(w.open) > 0 {
			if err := w.Step(g.Pick(len(w.open), "which"), nil, Result{R: make([]netx.Response, 1)}); err != nil {
				return err
			}
		}
	}
	for i := 0; i < steps; i++ {
		k := g.Int(0, 99, "step")
		switch {
		case k >= 100-closePct:
			if err := w.Close(g.Chance(25, "dead")); err != nil {
				return err
			}
		case len(w.open) > 0 && (k == 41 || k == 43 || k == 45 || k == 47 || k == 49):
			w.Cancel(g.Pick(len(w.open), "which"))
		case len(w.open) > 0 && (k%2 == 0 || len(w.open) >= width):
			var connErr error
			if g.Chance(15, "connfails") {
				connErr = fmt.Errorf("cannot connect (step %d)", i)
			}
			j := g.Pick(len(w.open), "which")
			res := Result{}
			if w.open[j].state == "send" {
				var how string
				res, how = NewResult(g, w.open[j].ID, failPct)
				w.Stats[how]++
			}
			if err := w.Step(j, connErr, res); err != nil {
				return err
			}
		default:
			if err := w.Start(g.Chance(6, "deadctx")); err != nil {
				return err
			}
		}
	}
	return w.Finish()
}

// ok is a unit that succeeds.
func ok() Result { return Result{R: make([]netx.Response, 1)} }

// Full fills a pool, uses all of its connections at once, and again, and closes it.
func (w *World) Full() error {
	for round := 0; round < 3; round++ {
		for len(w.open) < w.size+2-round {
			if err := w.Start(false); err != nil {
				return err
			}
		}
		for len(w.open) > 0 {
			// New connections are made in a scattered order.
			if err := w.Step(len(w.open)*(round+1)/4, nil, ok()); err != nil {
				return err
			}
		}
	}
	return w.Finish()
}

// Long runs a history of n steps made from a seed.
func (w *World) Long(n, width, failEvery int, seed int64) error {
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < n; i++ {
		w.Trace = nil
		if len(w.open) > 0 && (len(w.open) >= width || r.Intn(2) == 0) {
			res := ok()
			if failEvery > 0 && r.Intn(failEvery) == 0 {
				res.R[0] = &connection.MySqlXError{Code: 1064}
			}
			if err := w.Step(r.Intn(len(w.open)), nil, res); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			continue
		}
		if err := w.Start(false); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	return w.Finish()
}
