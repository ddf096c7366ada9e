package fake

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

// Stress is a free-running history: goroutines that Send, and others that Close.
type Stress struct {
	Size, Workers, Units, Closers int
	FailPct                       int
	Seed                          int64
	Delay                         int // 0: none, 1: yields, 2: sleeps of microseconds
	Fill                          int // Sends at once, before the others
}

type sconn struct {
	s      *stress
	id     int
	busy   atomic.Int32
	closed atomic.Int32
}

type stress struct {
	Stress
	barrier *sync.WaitGroup // while filling
	mu      sync.Mutex
	conns   []*sconn
	bad     error
	closed  atomic.Bool // a Close has returned without error
	news    atomic.Int64
}

func (s *stress) fail(format string, args ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad == nil {
		s.bad = fmt.Errorf(format, args...)
	}
}

// delay perturbs the schedule.
func (s *stress) delay(r *rand.Rand) {
	switch s.Delay {
	case 1:
		if r.Intn(3) == 0 {
			runtime.Gosched()
		}
	case 2:
		switch r.Intn(6) {
		case 0:
			time.Sleep(time.Duration(r.Intn(40)) * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
		}
	}
}

// sctx is the context of one Send: it perturbs the schedule wherever it is consulted.
type sctx struct {
	context.Context
	s    *stress
	r    *rand.Rand
	mu   sync.Mutex
	id   string
	res  Result
	late bool
	fill bool
	runs atomic.Int32
}

func (c *sctx) Done() <-chan struct{} {
	c.mu.Lock()
	c.s.delay(c.r)
	c.mu.Unlock()
	return c.Context.Done()
}

func (c *sctx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func caller(ctx context.Context) *sctx {
	c, _ := ctx.Value(ctxKey{}).(*sctx)
	return c
}

func (s *stress) New(ctx context.Context) (netx.Conn, error) {
	c := caller(ctx)
	if c == nil {
		s.fail("connecting with a context that is not the caller's")
		return nil, errors.New("no caller")
	}
	if c.late {
		s.fail("a Send that started after Close connects")
	}
	c.mu.Lock()
	s.delay(c.r)
	c.mu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	k := &sconn{s: s, id: len(s.conns)}
	s.conns = append(s.conns, k)
	return k, nil
}

func (k *sconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c := caller(ctx)
	if c == nil {
		k.s.fail("connection used with a context that is not the caller's")
		return nil, errors.New("no caller")
	}
	if c.late {
		k.s.fail("a Send that started after Close uses a connection")
	}
	if string(b) != c.id {
		k.s.fail("connection %d: not the bytes of its unit", k.id)
	}
	if c.runs.Add(1) > 1 {
		k.s.fail("unit %s runs twice", c.id)
	}
	if k.busy.Add(1) > 1 {
		k.s.fail("connection %d serves two units at once", k.id)
	}
	if k.closed.Load() > 0 {
		k.s.fail("connection %d is used after it was closed", k.id)
	}
	if c.fill {
		// All of them at once.
		k.s.barrier.Done()
		k.s.barrier.Wait()
	}
	c.mu.Lock()
	k.s.delay(c.r)
	c.mu.Unlock()
	if k.closed.Load() > 0 {
		k.s.fail("connection %d is closed while it serves a unit", k.id)
	}
	if c.res.Failed() {
		// never again
		k.busy.Add(1)
	}
	k.busy.Add(-1)
	return c.res.R, c.res.Err
}

func (k *sconn) Close() error {
	k.closed.Add(1)
	return nil
}

func (k *sconn) IsSecure() bool { return false }

// Run runs the history and reports the first violation.
func (st Stress) Run() (err error, stats map[string]int) {
	s := &stress{Stress: st}
	p := pool.Pool(fifoch.New(s, st.Size))
	var wg sync.WaitGroup
	var late, normal, inflight atomic.Int64
	guard := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<14)
					s.fail("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			f()
		}()
	}
	if st.Fill > 0 {
		s.barrier = &sync.WaitGroup{}
		s.barrier.Add(st.Fill)
		for i := 0; i < st.Fill; i++ {
			c := &sctx{Context: context.Background(), s: s, r: rand.New(rand.NewSource(st.Seed + int64(i))), id: fmt.Sprint("filling ", i), fill: true}
			c.res.R = make([]netx.Response, 1)
			guard(func() {
				got, err := p.Send(c, []byte(c.id))
				if e := c.res.Same(got, err); e != nil {
					s.fail("unit %s: Send returned %v", c.id, e)
				}
			})
		}
		filled := make(chan struct{})
		go func() { wg.Wait(); close(filled) }()
		select {
		case <-filled:
		case <-time.After(90 * time.Second):
			buf := make([]byte, 1<<17)
			return fmt.Errorf("of %d Sends at once, some block for ever\n%s", st.Fill, buf[:runtime.Stack(buf, true)]), nil
		}
		idle := 0
		s.mu.Lock()
		for _, k := range s.conns {
			if k.closed.Load() == 0 {
				idle++
			}
		}
		n := len(s.conns)
		s.mu.Unlock()
		want := st.Fill
		if want > st.Size {
			want = st.Size
		}
		if n != st.Fill || idle != want {
			return fmt.Errorf("after %d Sends at once on a pool of size %d: %d connections made, %d kept", st.Fill, st.Size, n, idle), nil
		}
	}
	ready := make(chan struct{})
	for i := 0; i < st.Workers; i++ {
		i := i
		guard(func() {
			r := rand.New(rand.NewSource(st.Seed*1000 + int64(i)))
			<-ready
			for u := 0; u < st.Units; u++ {
				c := &sctx{Context: context.Background(), s: s, r: r, id: fmt.Sprintf("unit %d of %d", u, i)}
				c.res.R = make([]netx.Response, 1+r.Intn(3))
				if r.Intn(100) < st.FailPct {
					e := &connection.MySqlXError{Code: uint32(i*1000 + u), Msg: c.id}
					if r.Intn(2) == 0 {
						c.res.R[r.Intn(len(c.res.R))] = e
					} else {
						c.res.Err = e
					}
				}
				c.late = s.closed.Load()
				got, err := p.Send(c, []byte(c.id))
				switch {
				case errors.Is(err, pool.ErrPoolClosed):
					late.Add(1)
					if st.Closers == 0 {
						s.fail("ErrPoolClosed from a pool that was not closed")
					}
					if c.runs.Load() > 0 {
						s.fail("unit %s was sent and reported as ErrPoolClosed", c.id)
					}
				case c.late:
					s.fail("a Send that started after Close returned %v, not ErrPoolClosed", err)
				default:
					normal.Add(1)
					if s.closed.Load() {
						inflight.Add(1)
					}
					if e := c.res.Same(got, err); e != nil {
						s.fail("unit %s: Send returned %v", c.id, e)
					}
					if c.runs.Load() != 1 {
						s.fail("unit %s ran %d times", c.id, c.runs.Load())
					}
				}
			}
		})
	}
	for i := 0; i < st.Closers; i++ {
		i := i
		guard(func() {
			r := rand.New(rand.NewSource(st.Seed*1000 + 500 + int64(i)))
			<-ready
			for n := r.Intn(20); n > 0; n-- {
				runtime.Gosched()
			}
			s.delay(r)
			c := &sctx{Context: context.Background(), s: s, r: r}
			if err := p.Close(c); err != nil {
				s.fail("Close: %v", err)
			}
			s.closed.Store(true)
		})
	}
	close(ready)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		buf := make([]byte, 1<<17)
		return fmt.Errorf("a Send or Close blocks for ever\n%s", buf[:runtime.Stack(buf, true)]), nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad != nil {
		return s.bad, nil
	}
	idle := 0
	for _, k := range s.conns {
		if k.closed.Load() == 0 {
			idle++
		}
	}
	if st.Closers > 0 && idle > 0 {
		return fmt.Errorf("the pool is closed and every Send has returned, but %d of %d connections are open", idle, len(s.conns)), nil
	}
	if idle > st.Size {
		return fmt.Errorf("%d connections are idle in a pool of size %d", idle, st.Size), nil
	}
	if st.Closers == 0 && st.FailPct == 0 && st.Size > 0 && idle == 0 && len(s.conns) > 0 {
		return fmt.Errorf("no connection was kept, although no unit failed"), nil
	}
	if err := p.Close(context.Background()); err != nil {
		return fmt.Errorf("Close: %v", err), nil
	}
	for _, k := range s.conns {
		if k.closed.Load() == 0 {
			return fmt.Errorf("at the end, with the pool closed, connection %d is open", k.id), nil
		}
	}
	return nil, map[string]int{"conns": len(s.conns), "late": int(late.Load()), "normal": int(normal.Load()), "in flight at Close": int(inflight.Load()), "reused": int(normal.Load()) - len(s.conns)}
}
