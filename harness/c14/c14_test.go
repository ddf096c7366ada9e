package c14

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"xtverif/fake"
	"xtverif/gen"
	"xtverif/hx"
)

// Controlled schedules: the goroutines of the pool stop whenever they connect or use a
// connection, and the checker draws which one goes on, so that the model of the pool is exact.
func TestSchedules(t *testing.T) {
	hx.Check(t, 4000, 40000, "pools of size 0 to 20 (mostly 0 to 4), some of them first filled by as many Sends at once, some with connections whose closing fails, histories of 4 to 60 steps: start a Send (6% with a cancelled context), let one of up to 6 (or the pool's size + 3) stopped Sends go on (connecting succeeds or fails, its unit succeeds or fails in one of 5 ways); non-trivial: 2 or more Sends in flight at once and an idle connection reused", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := fake.NewWorld(fake.PoolSize(g))
		err := w.History(g, g.Int(4, 60, "steps"), 20, 0)
		if err != nil {
			t.Fatalf("%v\nhistory: %s", err, strings.Join(w.Trace, "; "))
		}
		for k := range w.Stats {
			c.Class(k)
		}
		if w.Stats["idle connection reused"] > 0 {
			key := strings.Join(w.Trace, "; ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Free-running goroutines under the race detector.
func TestStress(t *testing.T) {
	hx.Check(t, 2500, 30000, "2 to 10 goroutines of 1 to 40 Sends each on a pool of size 0 to 20 (sometimes first filled by up to 23 Sends at once), 0 to 30% of the units failing, with yields and short sleeps inside the connector, the connections and the contexts, under the race detector; non-trivial: connections were reused", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		s := fake.Stress{Size: fake.PoolSize(g), Workers: g.Int(2, 10, "workers"), Units: g.Int(1, 40, "units"), Delay: g.Int(0, 2, "delay"), Seed: int64(g.Int(0, 1<<30, "seed"))}
		if g.Chance(50, "failing") {
			s.FailPct = g.Int(0, 30, "failpct")
		}
		if g.Chance(30, "fill") {
			s.Fill = g.Int(1, s.Size+3, "fill")
		}
		err, stats := s.Run()
		if err != nil {
			t.Fatalf("%+v: %v", s, err)
		}
		c.Class(fmt.Sprintf("size %d", s.Size))
		if stats["reused"] > 0 {
			key := fmt.Sprintf("%+v", s)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%s => %v", key, stats) })
		}
	})
}

// Pools of every size up to a bound.
func TestSizes(t *testing.T) {
	hx.Rule(t, "pools of size 0 to 130 and around powers of two and ten up to 2050 (4100 in the thorough tier): all connections in use at once and two more, all idle, in use again, and again, then closed; non-trivial: size > 1")
	for _, n := range gen.Counts(130, hx.N(2050, 4100)) {
		hx.Each(t, func(c *hx.Case) {
			w := fake.NewWorld(n)
			if err := w.Full(); err != nil {
				t.Fatalf("pool of size %d: %v", n, err)
			}
			if n > 1 {
				key := fmt.Sprint("size ", n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			}
		})
	}
}

// Long histories.
func TestLong(t *testing.T) {
	hx.Check(t, 25, 300, "histories of 500 to 12000 steps on a pool of size 1 to 6, with 1 to 8 Sends at once, and no, few or many units failing; non-trivial: all", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		w := fake.NewWorld(g.Int(1, 6, "size"))
		n, width, fail, seed := g.Int(500, 12000, "steps"), g.Int(1, 8, "width"), []int{0, 0, 3, 100}[g.Pick(4, "fail")], g.Int(0, 1<<30, "seed")
		key := fmt.Sprintf("%d steps, %d at once, one in %d fails, seed %d", n, width, fail, seed)
		c.NonTrivial(key)
		c.Sample(func() string { return key })
		if err := w.Long(n, width, fail, int64(seed)); err != nil {
			t.Fatalf("%s: %v", key, err)
		}
	})
}
