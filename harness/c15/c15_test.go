package c15

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
)

// Controlled schedules with Close at any point.
func TestSchedules(t *testing.T) {
	hx.Check(t, 4000, 40000, "pools of size 0 to 20 (mostly 0 to 4), some of them first filled by as many Sends at once, some with connections whose closing fails, histories of 3 to 40 steps: start a Send, let one of up to 6 (or the pool's size + 3) stopped Sends go on, or Close (25% with a cancelled context), any number of times; non-trivial: a Close with Sends in flight or idle connections, and a Send or Close after it", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := fake.NewWorld(fake.PoolSize(g))
		err := w.History(g, g.Int(3, 40, "steps"), 15, g.Int(3, 20, "closepct"))
		if err != nil {
			t.Fatalf("%v\nhistory: %s", err, strings.Join(w.Trace, "; "))
		}
		for k := range w.Stats {
			c.Class(k)
		}
		if w.Stats["unit in flight at Close"]+w.Stats["Send after Close"]+w.Stats["Close failed"] > 0 {
			key := strings.Join(w.Trace, "; ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Free-running goroutines, some of which close the pool, under the race detector.
func TestStress(t *testing.T) {
	hx.Check(t, 15000, 150000, "1 to 8 goroutines of 1 to 12 Sends each and 1 to 3 that Close, on a pool of size 0 to 20 (sometimes first filled by up to 23 Sends at once), with yields and short sleeps inside the connector, the connections and the contexts, under the race detector; non-trivial: some Sends before and some after the Close, or in flight", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := fake.Stress{Size: fake.PoolSize(g), Workers: g.Int(1, 8, "workers"), Units: g.Int(1, 12, "units"), Closers: g.Int(1, 3, "closers"), Delay: g.Int(0, 2, "delay"), Seed: int64(g.Int(0, 1<<30, "seed"))}
		if g.Chance(30, "failing") {
			s.FailPct = g.Int(0, 30, "failpct")
		}
		if g.Chance(30, "fill") {
			s.Fill = g.Int(1, s.Size+3, "fill")
		}
		err, stats := s.Run()
		if err != nil {
			t.Fatalf("%+v: %v", s, err)
		}
		for k, v := range stats {
			c.ClassIf(v > 0, k)
		}
		if stats["normal"] > 0 && stats["late"]+stats["in flight at Close"] > 0 {
			key := fmt.Sprintf("%+v", s)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%s => %v", key, stats) })
		}
	})
}

// Pools of every size up to a bound.
func TestSizes(t *testing.T) {
	hx.Rule(t, "pools of size 0 to 130 and around powers of two and ten up to 513: all connections in use at once and two more, all idle, in use again, and again, then closed; non-trivial: size > 1")
	for _, n := range gen.Counts(130, hx.N(513, 4100)) {
		hx.Each(t, func(c *hx.Case) {
			w := fake.NewWorld(n)
			if err := w.Full(); err != nil {
				t.Fatalf("pool of size %d: %v", n, err)
			}
			if n > 1 {
				key := fmt.Sprint("size ", n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			}
		})
	}
}
