// Package gen generates values, expressions and builder programs together with what the
// server must receive for them.
package gen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"

	"xtverif/wire"
)

// G draws from rapid, keeping the total size of a case within a budget.
type G struct {
	T      *rapid.T
	Budget int // bytes that may still be spent on large values
	Big    bool
	// Classes seen while generating.
	Seen map[string]bool
	// Owned are the values drawn that the caller could change later (byte slices, pointers).
	Owned []interface{}

	lists      []givenList // lists given to expression constructors
	operands   []Ex        // operands of this unit
	operandsOf *Prog
	names      []string
}

type givenList struct{ list, copy []interface{} }

// New returns a generator for one case. With big, a few values cross 2 MiB.
func New(t *rapid.T, big bool) *G {
	return &G{T: t, Budget: 5 << 20, Big: big, Seen: map[string]bool{}}
}

func (g *G) note(s string) { g.Seen[s] = true }

// Int draws from [lo, hi]: evenly where the range is small, and otherwise with a bias to small
// values and to the extremes.
func (g *G) Int(lo, hi int, label string) int {
	if uint(hi-lo) < 256 {
		return lo + g.Pick(hi-lo+1, label)
	}
	return rapid.IntRange(lo, hi).Draw(g.T, label)
}

var coin = rapid.Bool()

// Pick draws an index below n, each with about the same chance.
func (g *G) Pick(n int, label string) int {
	if n <= 1 {
		if n <= 0 {
			panic("Pick of nothing: " + label)
		}
		return 0
	}
	// The leading bits of a fraction of 1, until the index is certain.
	lo, w := 0, 1<<14
	for lo*n>>14 != (lo+w-1)*n>>14 {
		w >>= 1
		if coin.Draw(g.T, label) {
			lo += w
		}
	}
	return lo * n >> 14
}

// Chance is true with about pct percent (and shrinks to false).
func (g *G) Chance(pct int, label string) bool {
	if pct <= 0 || pct >= 100 {
		return pct > 0
	}
	lo, w, t := 0, 1<<10, (100-pct)<<10/100
	for lo < t && t < lo+w {
		w >>= 1
		if coin.Draw(g.T, label) {
			lo += w
		}
	}
	return lo >= t
}

// Len draws a length, biased to those at which an enclosing length prefix grows.
func (g *G) Len(label string) int {
	k := g.Int(0, 99, label+".k")
	var n int
	switch {
	case k < 62:
		n = g.Int(0, 20, label)
	case k < 82:
		n = 127 - g.Int(-4, 32, label)
		g.note("len~128")
	case k < 91:
		n = 16383 - g.Int(-4, 40, label)
		g.note("len~16K")
	case k < 97:
		n = g.Int(0, 400, label)
	case k < 98:
		n = g.Int(0, 70000, label)
	default:
		if g.Big && k == 99 && g.Int(0, 3, label+".big") == 3 {
			n = 2097151 - g.Int(-4, 60, label)
			if n <= g.Budget {
				g.note("len~2M")
			}
		} else {
			n = 4096 - g.Int(-10, 30, label)
		}
	}
	if n > 64 {
		if n > g.Budget {
			n = n % 64
		} else {
			g.Budget -= n
		}
	}
	return n
}

// Bytes draws arbitrary bytes.
func (g *G) Bytes(label string) []byte { return g.BytesN(g.Len(label+".len"), label) }

// BytesN draws n arbitrary bytes; long ones follow a drawn pattern.
func (g *G) BytesN(n int, label string) []byte {
	b := g.bytesN(n, label)
	if n < 300 && g.Chance(8, label+".odd") {
		return g.odd(b, label)
	}
	return b
}

func (g *G) bytesN(n int, label string) []byte {
	if n <= 8 {
		b := make([]byte, n, n+3)
		for i := range b {
			b[i] = byte(g.Int(0, 255, label))
		}
		return b
	}
	a, s := byte(g.Int(0, 255, label+".start")), byte(g.Int(0, 255, label+".step"))
	return Pattern(n, a, s)
}

// Pattern returns n bytes determined by a start and a step.
func Pattern(n int, a, s byte) []byte {
	b := make([]byte, n, n+3)
	for i := range b {
		b[i] = a + byte(i)*s + byte(i>>8)*7 + byte(i>>16)
	}
	return b
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"

// Name draws an identifier-like string of any length.
func (g *G) Name(label string) string {
	if len(g.names) > 0 && g.Chance(12, label+".again") {
		g.note("name used again")
		return g.names[g.Pick(len(g.names), label+".which")]
	}
	s := g.name(label)
	if len(s) < 4096 && len(g.names) < 8 {
		g.names = append(g.names, s)
	}
	return s
}

func (g *G) name(label string) string {
	n := g.Len(label + ".len")
	a, s := g.Int(0, len(letters)-1, label+".start"), g.Int(0, len(letters)-1, label+".step")
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[(a+i*s+i>>6)%len(letters)]
	}
	// Now and then something that must not be taken to mean anything.
	if g.Chance(30, label+".odd") {
		return string(g.odd(b, label))
	}
	return string(b)
}

// odd inserts (or appends, or prepends) a text that code is tempted to treat specially.
func (g *G) odd(b []byte, label string) []byte {
	for n := g.Int(1, 2, label+".odds"); n > 0; n-- {
		tok := Odd[g.Pick(len(Odd), label+".tok")]
		i := []int{0, len(b), len(b) / 2}[g.Pick(3, label+".at")]
		b = append(b[:i:i], append([]byte(tok), b[i:]...)...)
	}
	g.note("odd text")
	return b
}

// Odd are texts with a meaning in SQL, in Go, in protobuf or in C.
var Odd = []string{
	" ", "  ", "\t", "\n", "\r\n", ";", "\x00", "`", "``", "'", "\"", "\\", "\\0", "%", "%s", "%d%!", ".", "..", "@", "@@", "@id$1", "?", "??", ":1",
	"--", "-- ", "#", "/*", "*/", "*", "$", "$.a", "=", "(", ")", "[", "]", "{", "}", ",", "<", ">", "&", "|", "~", "^", "!",
	"\xff", "\xc3\x28", "\xed\xa0\x80", "\ufeff", "\u20ac", "\u00e9", "e\u0301", "\U0001F600", "\u2028", "\u00a0", "\x7f", "\x80", "\x0a\x01", "\x08\x01", "\x1a",
	"NULL", "null", "nil", "true", "false", "0", "-1", "1e9", "NaN", "DEFAULT", "SELECT", "select 1", "COMMIT", "commit", "ROLLBACK", "START TRANSACTION", "BEGIN",
	"SET @id$1 = LAST_INSERT_ID()", "LAST_INSERT_ID()", "sql", "xplugin", "mysqlx", "{}", "[]", "<a/>", "2020-01-01 00:00:00", "12:00:00", "0x41", "b'1'", "N'x'", "_utf8'x'",
}

// Uint64 draws an unsigned value, biased to varint boundaries.
func (g *G) Uint64(bitsN int, label string) uint64 {
	mask := ^uint64(0) >> (64 - uint(bitsN))
	k := g.Int(0, bitsN, label+".bits")
	if k == 0 {
		return 0
	}
	base := uint64(1) << uint(k-1)
	switch g.Int(0, 4, label+".near") {
	case 0:
		return base & mask
	case 1:
		return (base - 1) & mask
	case 2:
		return (base + 1) & mask
	case 3:
		return (base<<1 - 1) & mask
	}
	return (base | rapid.Uint64Range(0, base-1).Draw(g.T, label)) & mask
}

// Int64 draws a signed value of the given width.
func (g *G) Int64(bitsN int, label string) int64 {
	u := g.Uint64(bitsN, label)
	v := int64(u<<(64-uint(bitsN))) >> (64 - uint(bitsN))
	if g.Int(0, 1, label+".neg") == 1 {
		v = -v
		v = int64(uint64(v)<<(64-uint(bitsN))) >> (64 - uint(bitsN))
	}
	return v
}

// Want is what a scalar must arrive as.
type Want struct {
	S    wire.Scalar
	Time *time.Time
	Dur  *time.Duration
}

func (w Want) String() string {
	switch {
	case w.Time != nil:
		return "time " + w.Time.Format("2006-01-02 15:04:05.999999999 -0700")
	case w.Dur != nil:
		return "duration " + w.Dur.String()
	}
	return w.S.String()
}

var timeRE = regexp.MustCompile(`^(\d{4,})-(\d\d)-(\d\d)[ T](\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?$`)
var durRE = regexp.MustCompile(`^(-?)(\d+):(\d\d):(\d\d)(?:\.(\d{1,9}))?$`)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func frac(s string) int {
	return atoi(s + strings.Repeat("0", 9-len(s)))
}

// MatchTime checks that text denotes the civil date and time of t.
func MatchTime(text string, t time.Time) error {
	m := timeRE.FindStringSubmatch(text)
	if m == nil {
		return fmt.Errorf("%q is not a date and time", text)
	}
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	if atoi(m[1]) != y || atoi(m[2]) != int(mo) || atoi(m[3]) != d || atoi(m[4]) != h || atoi(m[5]) != mi || atoi(m[6]) != s || frac(m[7]) != t.Nanosecond() {
		return fmt.Errorf("time %s arrives as %q", t.Format("2006-01-02 15:04:05.000000000 -0700"), text)
	}
	return nil
}

// MatchDuration checks that text denotes d exactly.
func MatchDuration(text string, d time.Duration) error {
	m := durRE.FindStringSubmatch(text)
	if m == nil {
		return fmt.Errorf("%q is not a duration", text)
	}
	h, err := strconv.ParseUint(m[2], 10, 64)
	if err != nil || h > 3000000 || atoi(m[3]) > 59 || atoi(m[4]) > 59 {
		return fmt.Errorf("duration %d ns arrives as %q", int64(d), text)
	}
	got := h*3600e9 + uint64(atoi(m[3]))*60e9 + uint64(atoi(m[4]))*1e9 + uint64(frac(m[5]))
	want := uint64(d)
	if d < 0 {
		want = -want
	}
	if got != want || (m[1] == "-") != (d < 0) {
		return fmt.Errorf("duration %d ns arrives as %q", int64(d), text)
	}
	return nil
}

// Match checks a received scalar.
func (w Want) Match(got wire.Scalar) error {
	if w.Time != nil || w.Dur != nil {
		if got.Type != wire.Octets && got.Type != wire.String {
			return fmt.Errorf("want %v, got %v", w, got)
		}
		if got.Content != 0 {
			return fmt.Errorf("want %v, got content type %d", w, got.Content)
		}
		if w.Time != nil {
			return MatchTime(got.Data, *w.Time)
		}
		return MatchDuration(got.Data, *w.Dur)
	}
	if got != w.S {
		if got.Type == w.S.Type && got.Data != w.S.Data {
			i := 0
			for i < len(got.Data) && i < len(w.S.Data) && got.Data[i] == w.S.Data[i] {
				i++
			}
			return fmt.Errorf("want %v, got %v (first difference at byte %d)", w.S, got, i)
		}
		return fmt.Errorf("want %v, got %v", w.S, got)
	}
	return nil
}

// Val is a Go value and what it must arrive as.
type Val struct {
	V     interface{}
	W     Want
	Class string
	Bad   *Fault // cannot be encoded
}

// Fault is something that makes a unit unencodable. Cause is the error that must be
// reported; nil: any.
type Fault struct {
	Cause error
	What  string
}

func (f *Fault) String() string { return f.What }

var null = Want{S: wire.Scalar{Type: wire.Null}}

// Self is a user type that encodes itself, by value.
type Self struct{ N uint64 }

func (s Self) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendAnyString(p, tag, "self:"+strconv.FormatUint(s.N, 10), 0), nil
}

func (s Self) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return xproto.AppendExprString(p, tag, "self:"+strconv.FormatUint(s.N, 10), 0), nil
}

func strWant(s string, coll uint64) Want {
	return Want{S: wire.Scalar{Type: wire.String, Data: s, Collation: coll}}
}

func octWant(b []byte, ct uint32) Want {
	if b == nil {
		return null
	}
	return Want{S: wire.Scalar{Type: wire.Octets, Data: string(b), Content: ct}}
}

// Collations used: any value is legal on the wire.
func (g *G) collation(label string) collation.Collation {
	switch g.Pick(4, label+".kind") {
	case 0:
		return 0
	case 1:
		return collation.Binary
	case 2:
		return collation.Collation(g.Int(1, 307, label))
	}
	return collation.Collation(g.Uint64(32, label))
}

// maybeNilBytes draws bytes; nil sometimes.
func (g *G) maybeNilBytes(label string) []byte {
	if g.Chance(12, label+".nil") {
		g.note("nil bytes")
		return nil
	}
	b := g.Bytes(label)
	if len(b) == 0 {
		g.note("empty bytes")
	}
	return b
}

// Time draws a time in years 0 to 9999 in some zone.
func (g *G) Time(label string) time.Time {
	var loc *time.Location
	switch g.Pick(3, label+".zone") {
	case 0:
		loc = time.UTC
	case 1:
		loc = time.FixedZone("", g.Int(-14*3600, 14*3600, label+".off"))
	default:
		loc = time.FixedZone("XYZ", 60*g.Int(-14*60, 14*60, label+".off"))
	}
	year := g.Int(0, 9999, label+".year")
	nano := 0
	switch g.Pick(4, label+".nk") {
	case 1:
		nano = g.Int(0, 999999999, label+".ns")
	case 2:
		nano = []int{1, 9, 10, 999999999, 999999000, 100000000, 1000, 999, 123000000, 1000000}[g.Pick(10, label+".ns")]
	case 3:
		nano = g.Int(0, 999999, label+".us") * 1000
	}
	return time.Date(year, time.Month(g.Int(1, 12, label+".mon")), g.Int(1, 28, label+".day")+g.Pick(4, label+".day2"), g.Int(0, 23, label+".h"), g.Int(0, 59, label+".m"), g.Int(0, 59, label+".s"), nano, loc)
}

// validYear keeps day overflow (28+3) from leaving the supported years.
func validYear(t time.Time) time.Time {
	if t.Year() > 9999 {
		return t.AddDate(-1, 0, 0)
	}
	return t
}

// Duration draws any duration.
func (g *G) Duration(label string) time.Duration {
	switch g.Pick(6, label+".kind") {
	case 0:
		return time.Duration(g.Int(-400000, 400000, label)) * time.Second
	case 1:
		return time.Duration(g.Int64(64, label))
	case 2:
		return time.Duration(g.Int(-3000, 3000, label))*time.Millisecond + time.Duration(g.Int(-2, 2, label+".ns"))
	case 3: // around minute and hour boundaries
		return time.Duration(g.Int(-100, 100, label))*time.Hour + time.Duration(g.Int(-61, 61, label+".m"))*time.Minute + time.Duration(g.Int(-61, 61, label+".s"))*time.Second
	case 4:
		return []time.Duration{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 0, -1, 1, 999999999, -999999999, time.Second - 1, 838*time.Hour + 59*time.Minute + 59*time.Second}[g.Pick(10, label)]
	}
	return time.Duration(g.Int(-838*3600, 838*3600, label))*time.Second + time.Duration(g.Int(0, 999999, label+".us"))*time.Microsecond
}

// scalar draws a plain value supported as argument and as literal.
func (g *G) scalar(label string) Val {
	sint := func(v interface{}, x int64, c string) Val {
		return Val{V: v, W: Want{S: wire.Scalar{Type: wire.Sint, Int: x}}, Class: c}
	}
	uint_ := func(v interface{}, x uint64, c string) Val {
		return Val{V: v, W: Want{S: wire.Scalar{Type: wire.Uint, Uint: x}}, Class: c}
	}
	switch g.Pick(24, label+".type") {
	case 0:
		x := g.Int64(64, label)
		return sint(int(x), x, "int")
	case 1:
		x := g.Int64(8, label)
		return sint(int8(x), x, "int8")
	case 2:
		x := g.Int64(16, label)
		return sint(int16(x), x, "int16")
	case 3:
		x := g.Int64(32, label)
		return sint(int32(x), x, "int32")
	case 4:
		x := g.Int64(64, label)
		return sint(int64(x), x, "int64")
	case 5:
		x := g.Uint64(64, label)
		return uint_(uint(x), x, "uint")
	case 6:
		x := g.Uint64(8, label)
		return uint_(uint8(x), x, "uint8")
	case 7:
		x := g.Uint64(16, label)
		return uint_(uint16(x), x, "uint16")
	case 8:
		x := g.Uint64(32, label)
		return uint_(uint32(x), x, "uint32")
	case 9:
		x := g.Uint64(64, label)
		return uint_(x, x, "uint64")
	case 10:
		b := g.Int(0, 1, label) == 1
		u := uint64(0)
		if b {
			u = 1
		}
		return Val{V: b, W: Want{S: wire.Scalar{Type: wire.Bool, Uint: u}}, Class: "bool"}
	case 11:
		f := g.Float64(label)
		return Val{V: f, W: Want{S: wire.Scalar{Type: wire.Double, Uint: math.Float64bits(f)}}, Class: "float64"}
	case 12:
		f := math.Float32frombits(uint32(g.Uint64(32, label)))
		return Val{V: f, W: Want{S: wire.Scalar{Type: wire.Float, Uint: uint64(math.Float32bits(f))}}, Class: "float32"}
	case 13, 14, 22:
		s := string(g.Bytes(label))
		return Val{V: s, W: strWant(s, 0), Class: "string"}
	case 15, 23:
		b := g.maybeNilBytes(label)
		return Val{V: b, W: octWant(b, 0), Class: "[]byte"}
	case 16:
		t := validYear(g.Time(label))
		return Val{V: t, W: Want{Time: &t}, Class: "time"}
	case 17:
		d := g.Duration(label)
		return Val{V: d, W: Want{Dur: &d}, Class: "duration"}
	case 18:
		s := string(g.Bytes(label))
		c := g.collation(label + ".coll")
		return Val{V: xtorm.String{Value: s, Collation: c}, W: strWant(s, uint64(c)), Class: "String"}
	case 19:
		b := g.maybeNilBytes(label)
		switch g.Pick(3, label+".ct") {
		case 0:
			return Val{V: xtorm.Geometry(b), W: octWant(b, 1), Class: "Geometry"}
		case 1:
			return Val{V: xtorm.JSON(b), W: octWant(b, 2), Class: "JSON"}
		}
		return Val{V: xtorm.XML(b), W: octWant(b, 3), Class: "XML"}
	case 20:
		b := g.Bytes(label)
		if g.Pick(2, label+".ct") == 0 {
			return Val{V: xtorm.JSONString(string(b)), W: octWant(b, 2), Class: "JSONString"}
		}
		return Val{V: xtorm.XMLString(string(b)), W: octWant(b, 3), Class: "XMLString"}
	}
	if g.Pick(3, label+".self") == 2 {
		n := g.Uint64(64, label)
		return Val{V: Self{n}, W: strWant("self:"+strconv.FormatUint(n, 10), 0), Class: "self-encoding"}
	}
	return Val{V: nil, W: null, Class: "nil"}
}

// Float64 draws any bit pattern, and common values.
func (g *G) Float64(label string) float64 {
	switch g.Pick(3, label+".kind") {
	case 0:
		return rapid.Float64().Draw(g.T, label)
	case 1:
		return math.Float64frombits(g.Uint64(64, label))
	}
	return []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1}[g.Pick(10, label)]
}

// Literal draws a value usable in expressions.
func (g *G) Literal(label string) Val {
	v := g.scalar(label)
	if g.Chance(4, label+".ptr") {
		switch x := v.V.(type) {
		case xtorm.String:
			g.note("pointer")
			g.own(&x)
			return Val{V: &x, W: v.W, Class: "*String"}
		case Self:
			g.note("pointer")
			g.own(&x)
			return Val{V: &x, W: v.W, Class: "*self"}
		case nil:
			g.note("nil pointer")
			return Val{V: (*xtorm.String)(nil), W: null, Class: "nil *String"}
		}
	}
	g.note(v.Class)
	g.own(v.V)
	return v
}

func (g *G) own(v interface{}) {
	if v == nil {
		return
	}
	switch k := reflect.TypeOf(v).Kind(); k {
	case reflect.Slice, reflect.Ptr:
		g.Owned = append(g.Owned, v)
	}
}

// Frozen is a copy of owned values, by which changes to them are found.
type Frozen struct {
	vals  []interface{}
	copy  []interface{}
	lists []givenList
}

// Freeze copies the owned values.
func (g *G) Freeze() *Frozen {
	f := &Frozen{vals: g.Owned, lists: g.lists}
	for _, v := range g.Owned {
		f.copy = append(f.copy, contents(reflect.ValueOf(v)))
	}
	return f
}

// contents returns a comparable copy of what v refers to.
func contents(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Slice:
		b := v.Bytes()
		return fmt.Sprintf("%d %v %x", len(b), b == nil, b[:cap(b)])
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return contents(v.Elem())
	}
	if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 {
		return math.Float64bits(v.Float())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// Changed returns a description of a value that is no longer what it was.
func (f *Frozen) Changed() string {
	for i, v := range f.vals {
		if c := contents(reflect.ValueOf(v)); c != f.copy[i] {
			return fmt.Sprintf("%T changed", v)
		}
	}
	for _, l := range f.lists {
		for i, v := range l.list[:cap(l.list)] {
			if i < len(l.copy) && !same(v, l.copy[i]) || i >= len(l.copy) && v != interface{}(spare) {
				return fmt.Sprintf("element %d of a list of %d operands changed", i, len(l.copy))
			}
		}
	}
	return ""
}

// Scribble overwrites the owned values, as a caller may after a call has returned.
func (g *G) Scribble() {
	for _, v := range g.Owned {
		scribble(reflect.ValueOf(v))
	}
	for _, l := range g.lists {
		for i := range l.list {
			l.list[i] = "changed after the call"
		}
	}
}

func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		b := v.Bytes()
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5A
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice {
			scribble(e)
		}
		e.Set(reflect.Zero(e.Type()))
	}
}

func ptr(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return &x
	case int8:
		return &x
	case int16:
		return &x
	case int32:
		return &x
	case int64:
		return &x
	case uint:
		return &x
	case uint8:
		return &x
	case uint16:
		return &x
	case uint32:
		return &x
	case uint64:
		return &x
	case bool:
		return &x
	case float32:
		return &x
	case float64:
		return &x
	case string:
		return &x
	case []byte:
		return &x
	case time.Time:
		return &x
	case time.Duration:
		return &x
	case xtorm.String:
		return &x
	case Self:
		return &x
	case *int:
		return &x
	case *int64:
		return &x
	case *uint8:
		return &x
	case *uint16:
		return &x
	case *string:
		return &x
	case *[]byte:
		return &x
	case *time.Time:
		return &x
	case *bool:
		return &x
	case *float64:
		return &x
	case *xtorm.String:
		return &x
	case **int:
		return &x
	case **string:
		return &x
	}
	return nil
}

var nilPointers = []interface{}{
	(*int)(nil), (*int8)(nil), (*int16)(nil), (*int32)(nil), (*int64)(nil),
	(*uint)(nil), (*uint8)(nil), (*uint16)(nil), (*uint32)(nil), (*uint64)(nil),
	(*bool)(nil), (*float32)(nil), (*float64)(nil), (*string)(nil), (*[]byte)(nil),
	(*time.Time)(nil), (*time.Duration)(nil), (*xtorm.String)(nil), (*Self)(nil), (**int)(nil),
	new(*int), new(*string), new(*time.Time), new(*xtorm.String),
	new(interface{}), new(error), new(*interface{}), (*interface{})(nil),
}

// Arg draws a statement argument, pointers included.
func (g *G) Arg(label string) Val {
	if g.Chance(5, label+".nilptr") {
		i := g.Pick(len(nilPointers), label)
		g.note("nil pointer")
		return Val{V: nilPointers[i], W: null, Class: fmt.Sprintf("nil %T", nilPointers[i])}
	}
	v := g.scalar(label)
	for depth := 0; depth < 3 && g.Chance(20, label+".ptr"); depth++ {
		p := ptr(v.V)
		if p == nil || g.Chance(15, label+".iface") {
			// A pointer to an interface that holds the value.
			x := v.V
			p = &x
			g.note("pointer to interface")
		}
		g.note("pointer")
		v = Val{V: p, W: v.W, Class: "*" + v.Class}
	}
	g.own(v.V)
	g.note(strings.TrimLeft(v.Class, "*"))
	return v
}

// Unsupported draws a value of a type that can be encoded nowhere, or whose encoder fails.
func (g *G) Unsupported(label string) (v interface{}, cause error) {
	return unsupported(g.Pick(NBadArgs, label), g.Int(0, 1000, label+".n"))
}

type (
	namedString string
	namedBytes  []byte
	namedBool   bool
	namedFloat  float64
)

func unsupported(k, n int) (v interface{}, cause error) {
	switch k {
	case 0:
		return struct{ A int }{1}, nil
	case 1:
		return []int{1, 2}, nil
	case 2:
		return map[string]int{"a": 1}, nil
	case 3:
		return make(chan int), nil
	case 4:
		return func() {}, nil
	case 5:
		return complex(1, 2), nil
	case 6:
		type myInt int
		return myInt(4), nil
	case 7:
		e := causeOf(n)
		return Failing{Err: e, Nil: true}, e
	case 8:
		e := causeOf(n)
		return Failing{Err: e, Nil: false}, e
	case 9:
		e := causeOf(n)
		return Failing{Err: e, Junk: true}, e
	case 10:
		return &struct{ B string }{"x"}, nil
	case 11:
		return [3]byte{1, 2, 3}, nil
	case 12:
		return uintptr(n), nil
	case 13:
		return namedString("x"), nil
	case 14:
		return namedBytes{1}, nil
	case 15:
		return time.Month(n), nil
	case 16:
		return []interface{}{1, "x"}, nil
	case 17:
		return []string(nil), nil
	case 18:
		return map[string]interface{}(nil), nil
	case 19:
		return error(&TestError{n}), nil
	case 20:
		return complex64(0), nil
	case 21:
		return namedBool(true), nil
	}
	return namedFloat(1), nil
}

// Causes are errors for callbacks to return.
var Causes = []error{&TestError{1}, io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, os.ErrNotExist, &TestError{2}}

// causeOf is an error of the harness, or one that code is tempted to treat specially.
func causeOf(n int) error {
	switch n % 13 {
	case 1:
		return io.EOF
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return io.ErrUnexpectedEOF
	case 5:
		return os.ErrNotExist
	}
	return &TestError{n}
}

// TestError is an error raised by the harness.
type TestError struct{ N int }

func (e *TestError) Error() string { return "test error " + strconv.Itoa(e.N) }

// Failing is a user type whose encoder fails, with or without returning the buffer.
type Failing struct {
	Err       error
	Nil, Junk bool
}

func (f Failing) fail(p []byte) ([]byte, error) {
	if f.Nil {
		return nil, f.Err
	}
	if f.Junk {
		return append(p, "junk that must never be sent"...), f.Err
	}
	return p, f.Err
}

func (f Failing) AppendAny(p []byte, tag uint8) ([]byte, error)  { return f.fail(p) }
func (f Failing) AppendExpr(p []byte, tag uint8) ([]byte, error) { return f.fail(p) }

// IsCause reports whether err is or wraps the wanted cause (any error if cause is nil).
func IsCause(err, cause error) bool {
	if err == nil {
		return false
	}
	return cause == nil || errors.Is(err, cause)
}

// Clone copies b, keeping nil.
func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Diff returns the first index at which a and b differ, -1 if equal.
func Diff(a, b []byte) int {
	if bytes.Equal(a, b) {
		return -1
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
