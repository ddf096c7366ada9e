package c18

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// received sends the value in every place a value can take and returns what arrives.
// Statement arguments may be pointers, literals may not.
func received(arg, v interface{}, prefix int) ([]wire.Scalar, error) {
	x := xtorm.New(prefix)
	x.StmtExecute(strings.Repeat("x", prefix), 1, arg, 2)
	x.Execute(7, arg)
	x.Insert("t", []string{"a", "b"}, [][]interface{}{{v, 1}, {2, v}})
	x.Update("t", xtorm.Eq(xtorm.Column("a"), v), map[string]interface{}{"b": v})
	x.Delete("t", xtorm.Between(xtorm.Column("a"), v, v))
	x.UpdateF("t", xtorm.In(xtorm.Column("a"), []interface{}{v}), func(u *xtorm.Update) error { u.Set("c", v); return nil })
	rec := &gen.Recorder{}
	if _, err := x.Send(context.Background(), rec); err != nil {
		return nil, err
	}
	ms, err := wire.DecodeUnit(rec.Units[0])
	if err != nil {
		return nil, err
	}
	if len(ms) != 6 || len(ms[0].Args) != 3 || len(ms[1].Args) != 1 || len(ms[2].Rows) != 2 || len(ms[3].Sets) != 1 || len(ms[5].Sets) != 1 ||
		ms[3].Criteria == nil || len(ms[3].Criteria.Params) != 2 || ms[4].Criteria == nil || len(ms[4].Criteria.Params) != 3 || ms[5].Criteria == nil || len(ms[5].Criteria.Params) != 2 {
		return nil, fmt.Errorf("arrives as %v", ms)
	}
	var r []wire.Scalar
	r = append(r, ms[0].Args[1], ms[1].Args[0])
	for _, e := range []wire.Expr{ms[2].Rows[0][0], ms[2].Rows[1][1], ms[3].Criteria.Params[1], *ms[3].Sets[0].Value, ms[4].Criteria.Params[1], ms[4].Criteria.Params[2], ms[5].Criteria.Params[1], *ms[5].Sets[0].Value} {
		if e.Kind != wire.Literal {
			return nil, fmt.Errorf("a literal arrives as %v", e)
		}
		r = append(r, e.Lit)
	}
	return r, nil
}

func check(w gen.Want, arg, v interface{}, prefix int) error {
	got, err := received(arg, v, prefix)
	if err != nil {
		return fmt.Errorf("%v: %v", w, err)
	}
	for i, s := range got {
		if err := w.Match(s); err != nil {
			return fmt.Errorf("place %d: %v", i, err)
		}
	}
	return nil
}

var zones []*time.Location

func init() {
	for _, n := range []string{"Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia", "Africa/Monrovia", "America/St_Johns"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			hx.HarnessError("%v", err)
		}
		zones = append(zones, l)
	}
}

func TestTimes(t *testing.T) {
	hx.Check(t, 20000, 300000, "times of years 0 to 9999 with any fraction, in UTC, fixed zones (offsets with seconds) and zones with daylight saving, as statement and prepared-statement arguments (by value and by pointer), inserted values, assignments and criteria; non-trivial: a fraction or a zone other than UTC", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		tm := g.Time("t")
		if g.Chance(30, "named") {
			z := zones[g.Pick(len(zones), "zone")]
			tm = time.Date(tm.Year(), tm.Month(), tm.Day(), tm.Hour(), tm.Minute(), tm.Second(), tm.Nanosecond(), z)
			c.Class(z.String())
		}
		if g.Chance(5, "wall") { // with a monotonic reading
			tm = time.Now().Add(time.Duration(g.Int(-1<<40, 1<<40, "now")))
		}
		if tm.Year() > 9999 || tm.Year() < 0 {
			tm = tm.AddDate(9998-tm.Year(), 0, 0)
		}
		var v interface{} = tm
		if g.Chance(20, "ptr") {
			v = &tm
		}
		if err := check(gen.Want{Time: &tm}, v, tm, g.Int(0, 150, "prefix")); err != nil {
			t.Fatalf("%v", err)
		}
		c.ClassIf(tm.Nanosecond() == 0, "whole seconds")
		c.ClassIf(tm.Nanosecond()%1000 != 0, "nanoseconds")
		c.ClassIf(tm.Year() < 1000, "year before 1000")
		if tm.Nanosecond() != 0 || tm.Location() != time.UTC {
			s := tm.Format("2006-01-02 15:04:05.999999999 -07:00:00")
			c.NonTrivial(s)
			c.Sample(func() string { return s })
		}
	})
}

func TestDurations(t *testing.T) {
	hx.Check(t, 20000, 300000, "durations of any sign and size (biased to second, minute and hour boundaries, fractions with leading and trailing zeros, and the extremes), in the same places; non-trivial: negative, fractional or of at least a day", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		d := g.Duration("d")
		if g.Chance(20, "frac") {
			d += time.Duration(g.Int(0, 999, "f")) * []time.Duration{1, 1e3, 1e6}[g.Pick(3, "unit")]
		}
		var v interface{} = d
		if g.Chance(20, "ptr") {
			v = &d
		}
		if err := check(gen.Want{Dur: &d}, v, d, g.Int(0, 150, "prefix")); err != nil {
			t.Fatalf("%v", err)
		}
		c.ClassIf(d < 0, "negative")
		c.ClassIf(d%time.Second != 0, "fraction")
		if d < 0 || d%time.Second != 0 || d >= 24*time.Hour {
			c.NonTrivial(d.String())
			c.Sample(func() string { return d.String() })
		}
	})
}

// The exported encoder appends to whatever is there.
func TestAppendDuration(t *testing.T) {
	hx.Check(t, 30000, 600000, "AppendDuration after 0 to 40 bytes in a buffer of any capacity; non-trivial: bytes before it", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		d := g.Duration("d")
		pre := gen.Pattern(g.Int(0, 40, "pre"), byte(g.Int(0, 255, "a")), byte(g.Int(0, 255, "s")))
		p := append(make([]byte, 0, len(pre)+g.Int(0, 40, "cap")), pre...)
		got := xproto.AppendDuration(p, d)
		if len(got) < len(pre) || string(got[:len(pre)]) != string(pre) {
			t.Fatalf("the bytes before duration %d ns were changed", int64(d))
		}
		if err := gen.MatchDuration(string(got[len(pre):]), d); err != nil {
			t.Fatalf("%v", err)
		}
		if len(pre) > 0 {
			c.NonTrivial(fmt.Sprint(d, len(pre)))
			c.Sample(func() string { return string(got[len(pre):]) })
		}
	})
}

// Every second of the range of MySQL's TIME, both signs, with a fraction that varies.
func TestEverySecond(t *testing.T) {
	step := hx.N(7, 1)
	hx.Rule(t, fmt.Sprintf("every %d. second from -839 to 839 hours, with a varying fraction; non-trivial: all", step))
	end := 839 * 3600
	for s := -end; s <= end; s += step {
		d := time.Duration(s) * time.Second
		if s%3 != 0 {
			d += time.Duration(s*7919%1000000) * time.Microsecond
		}
		hx.Each(t, func(c *hx.Case) {
			got := string(xproto.AppendDuration(nil, d))
			if err := gen.MatchDuration(got, d); err != nil {
				t.Fatal(err)
			}
			c.NonTrivial(got)
			c.Sample(func() string { return got })
		})
	}
}
