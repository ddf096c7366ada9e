package c21

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"testing"

	"google.golang.org/protobuf/encoding/protowire"
	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/xproto"

	"xtverif/gen"
	"xtverif/hx"
	"xtverif/wire"
)

// buffer draws what the messages are appended to.
func buffer(g *gen.G) (p, pre []byte) {
	if g.Chance(15, "nil") {
		return nil, nil
	}
	n := g.Int(0, 40, "pre")
	if g.Chance(30, "long") {
		// What a unit holds before the message: any length, also just around a power of two.
		n = g.Int(0, 1<<g.Int(6, 17, "bits"), "pre long")
		if g.Chance(50, "edge") {
			n = 1<<g.Int(6, 17, "edge") + g.Int(-9, 9, "off")
		}
	}
	pre = gen.Pattern(n, byte(g.Int(0, 255, "pa")), byte(g.Int(0, 255, "ps")))
	full := gen.Pattern(len(pre)+g.Int(0, 300, "cap"), 0xFF, byte(g.Int(0, 255, "junk")))
	return append(full[:0], pre...), pre
}

// only decodes the one message that was appended to pre.
func only(out, pre []byte) (wire.Msg, error) {
	if !bytes.HasPrefix(out, pre) {
		return wire.Msg{}, fmt.Errorf("the bytes already in the buffer were changed")
	}
	ms, err := wire.DecodeUnit(out[len(pre):])
	if err != nil {
		return wire.Msg{}, err
	}
	if len(ms) != 1 {
		return wire.Msg{}, fmt.Errorf("%d messages", len(ms))
	}
	return ms[0], nil
}

type cond struct {
	key   uint32
	value string
	f     xproto.OpenCondition
}

const sized = "; names and data of any length, biased to the varint boundaries"

func TestExpect(t *testing.T) {
	hx.Check(t, 30000, 300000, "expectation blocks with either context and 0 to 6 conditions (no error on or off, field exists), opened and closed in any buffer"+sized+"; non-trivial: at least 1 condition", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, hx.Thorough())
		p, pre := buffer(g)
		var cs []cond
		var fs []xproto.OpenCondition
		for i, n := 0, g.Int(0, 6, "conds"); i < n; i++ {
			var k cond
			switch g.Pick(4, "cond") {
			case 0:
				k = cond{1, "1", xproto.OpenConditionExpectNoError(true)}
			case 1:
				k = cond{1, "0", xproto.OpenConditionExpectNoError(false)}
			default:
				s := g.Name("field")
				k = cond{2, s, xproto.OpenConditionExpectFieldExists(s)}
			}
			cs = append(cs, k)
			fs = append(fs, k.f)
		}
		ctx := 0
		op := xproto.OpenExpectCtxCopyPrev
		if g.Int(0, 1, "ctx") == 1 {
			ctx, op = 1, xproto.OpenExpectCtxEmpty
		}
		m, err := only(xproto.ExpectOpen(p, op, fs...), pre)
		var desc []string
		for _, k := range cs {
			desc = append(desc, fmt.Sprintf("(%d %d bytes)", k.key, len(k.value)))
		}
		if err != nil {
			t.Fatalf("open with context %d, conditions %v: %v", ctx, desc, err)
		}
		bad := m.Type != wire.ExpectOpen || m.Ctx != ctx || len(m.Conds) != len(cs)
		for i := range cs {
			bad = bad || m.Conds[i] != wire.Cond{Key: cs[i].key, Value: cs[i].value}
		}
		if bad {
			t.Fatalf("open with context %d, conditions %v arrives as %v", ctx, desc, m)
		}
		p, pre = buffer(g)
		m, err = only(xproto.ExpectClose(p), pre)
		if err != nil || m.Type != wire.ExpectClose {
			t.Fatalf("close arrives as %v, %v", m, err)
		}
		if len(cs) > 0 {
			key := fmt.Sprint(ctx, desc, len(pre))
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

func TestReset(t *testing.T) {
	hx.Check(t, 3000, 30000, "session resets, closing or keeping the session, in any buffer; non-trivial: bytes before it", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		p, pre := buffer(g)
		keep := g.Int(0, 1, "keep") == 1
		m, err := only(xproto.Reset(p, keep), pre)
		if err != nil || m.Type != wire.SessReset || m.KeepOpen != keep {
			t.Fatalf("reset keeping the session open: %v, arrives as %v, %v", keep, m, err)
		}
		if len(pre) > 0 {
			key := fmt.Sprint(keep, len(pre), cap(p))
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

func TestCapability(t *testing.T) {
	hx.Check(t, 16000, 200000, "capability requests with any name, on or off"+sized+"; non-trivial: a name of at least 1 byte", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, hx.Thorough())
		name := g.Name("name")
		if g.Chance(10, "known") {
			known := []string{"tls", "authentication.mechanisms", "doc.formats", "client.pwd_expire_ok", "client.interactive", "compression", "session_connect_attrs", "node_type"}
			name = known[g.Pick(len(known), "which")]
		}
		on := g.Int(0, 1, "on")
		b, err := xproto.CapabilitySet(name, on == 1)
		if err != nil {
			t.Fatalf("capability %q: %v", name, err)
		}
		m, err := only(b, nil)
		if err != nil || m.Type != wire.CapabilitiesSet || len(m.Caps) != 1 || m.Caps[0].Name != name || (m.Caps[0].Value != wire.Scalar{Type: wire.Bool, Uint: uint64(on)}) {
			t.Fatalf("capability %q %d arrives as %v, %v", name, on, m, err)
		}
		// Requests do not share state.
		b2, _ := xproto.CapabilitySet("other", on != 1)
		if m2, err := only(b2, nil); err != nil || len(m2.Caps) != 1 || m2.Caps[0].Name != "other" || m2.Caps[0].Value.Uint != uint64(1-on) {
			t.Fatalf("a second request arrives as %v, %v", m2, err)
		}
		if m, err = only(b, nil); err != nil || m.Caps[0].Name != name || m.Caps[0].Value.Uint != uint64(on) {
			t.Fatalf("a second request changed the first to %v, %v", m, err)
		}
		if len(name) > 0 {
			key := fmt.Sprint(name, on)
			c.NonTrivial(key)
			c.Sample(func() string { return fmt.Sprintf("%d bytes, %d", len(name), on) })
		}
	})
}

func TestAuthentication(t *testing.T) {
	hx.Check(t, 30000, 300000, "authentication start and continue messages with any mechanism and data, in nil, short and reused buffers"+sized+"; non-trivial: data of at least 1 byte", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, hx.Thorough())
		scratch := func() []byte {
			n := g.Int(0, 300, "scratch")
			if n == 0 {
				return nil
			}
			return gen.Pattern(n, 0xFF, byte(g.Int(0, 255, "junk")))[:0]
		}
		mech := g.Name("mech")
		data := g.Bytes("data")
		keep := gen.Clone(data)
		m, err := only(xproto.AuthenticateStart(scratch(), mech, data), nil)
		if err != nil || m.Type != wire.AuthenticateStart || m.Mech != mech || m.AuthData != string(keep) {
			t.Fatalf("start with mechanism of %d bytes and data of %d bytes arrives as %v, %v", len(mech), len(keep), m, err)
		}
		m, err = only(xproto.AuthenticateContinue(scratch(), data), nil)
		if err != nil || m.Type != wire.AuthenticateContinue || m.AuthData != string(keep) {
			t.Fatalf("continue with data of %d bytes arrives as %v, %v", len(keep), m, err)
		}
		if !bytes.Equal(data, keep) {
			t.Fatalf("the data was changed")
		}
		if len(data) > 0 {
			key := fmt.Sprint(len(mech), len(data), cap(data))
			c.NonTrivial(key + string(data[:1]))
			c.Sample(func() string { return key })
		}
	})
}

// field decodes the one field with the tag that was appended to pre.
func field(out, pre []byte, tag uint8) (wire.Expr, error) {
	if !bytes.HasPrefix(out, pre) {
		return wire.Expr{}, fmt.Errorf("the bytes already in the buffer were changed")
	}
	b := out[len(pre):]
	num, typ, n := protowire.ConsumeTag(b)
	if n < 0 || typ != protowire.BytesType || num != protowire.Number(tag) {
		return wire.Expr{}, fmt.Errorf("field %d of type %d", num, typ)
	}
	v, k := protowire.ConsumeBytes(b[n:])
	if k < 0 || n+k != len(b) {
		return wire.Expr{}, fmt.Errorf("a field of %d bytes in %d bytes", k, len(b)-n)
	}
	return wire.DecodeExpr(v)
}

func TestFields(t *testing.T) {
	hx.Check(t, 40000, 400000, "placeholders of any position, variables and columns of any name, operators and functions of any name over them, under any field number from 1 to 15, in any buffer"+sized+"; non-trivial: name of at least 1 byte or a position of at least 128", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, hx.Thorough())
		p, pre := buffer(g)
		tag := uint8(g.Int(1, 15, "tag"))
		kind := g.Pick(5, "kind")
		var out []byte
		var err error
		pos := uint32(g.Uint64(32, "pos"))
		name := ""
		if kind > 0 {
			name = g.Name("name")
		}
		ph := xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, pos) })
		switch kind {
		case 0:
			out, err = xproto.AppendExprPlaceholder(p, tag, pos)
		case 1:
			out, err = xproto.AppendExprVariable(p, tag, name)
		case 2:
			out, err = xproto.AppendExprColumn(p, tag, name)
		case 3:
			out, err = xproto.AppendExprOperatorV(p, tag, name, ph, 1)
		case 4:
			out, err = xproto.AppendExprFunctionCallV(p, tag, name, ph, 1)
		}
		what := []string{"placeholder", "variable", "column", "operator", "function"}[kind]
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		e, err := field(out, pre, tag)
		if err != nil {
			t.Fatalf("%s (name of %d bytes, position %d): %v", what, len(name), pos, err)
		}
		params := func() bool {
			return len(e.Params) == 2 && e.Params[0].Kind == wire.Placeholder && e.Params[0].Pos == pos &&
				e.Params[1].Kind == wire.Literal && e.Params[1].Lit == wire.Scalar{Type: wire.Sint, Int: 1}
		}
		ok := false
		switch kind {
		case 0:
			ok = e.Kind == wire.Placeholder && e.Pos == pos
		case 1:
			ok = e.Kind == wire.Variable && strings.TrimPrefix(e.Name, "@") == strings.TrimPrefix(name, "@")
		case 2:
			ok = e.Kind == wire.Ident && e.Name == name
		case 3:
			ok = e.Kind == wire.Operator && e.Name == name && params()
		case 4:
			ok = e.Kind == wire.FuncCall && e.Name == name && params()
		}
		if !ok {
			t.Fatalf("%s (name of %d bytes, position %d) arrives as %v", what, len(name), pos, e)
		}
		c.Class(what)
		if len(name) > 0 || pos >= 128 {
			key := fmt.Sprint(what, len(name), pos, tag, len(pre))
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}

// Names and data of every magnitude.
func TestHuge(t *testing.T) {
	hx.Rule(t, "each kind of message and field with a name or data of 2^k-9 to 2^k+9 bytes for k = 7, 14, 21, around 3*2^21, 2^24 and 2^28 bytes; non-trivial: all")
	var sizes []int
	for _, k := range []uint{7, 14, 21} {
		for d := -9; d <= 9; d++ {
			sizes = append(sizes, 1<<k+d)
		}
	}
	sizes = append(append(sizes, 3<<21, 5<<21+1, 0x55<<18), gen.Huge(12)...)
	pre := []byte("before")
	for _, n := range sizes {
		s := gen.HugeString(n)
		same := func(m wire.Msg, err error, typ byte, got string) error {
			if err != nil {
				return err
			}
			if byte(m.Type) != typ || got != s {
				return fmt.Errorf("arrives as message %d with %d bytes", m.Type, len(got))
			}
			return nil
		}
		for kind, what := range []string{"field exists", "capability", "mechanism", "start data", "continue data", "variable", "column", "operator", "function"} {
			hx.Each(t, func(c *hx.Case) {
				var err error
				var m wire.Msg
				switch kind {
				case 0:
					m, err = only(xproto.ExpectOpen(append([]byte(nil), pre...), xproto.OpenExpectCtxEmpty, xproto.OpenConditionExpectFieldExists(s), xproto.OpenConditionExpectNoError(true)), pre)
					if err == nil && (len(m.Conds) != 2 || m.Conds[1] != wire.Cond{Key: 1, Value: "1"}) {
						err = fmt.Errorf("arrives with %d conditions", len(m.Conds))
					}
					if err == nil {
						err = same(m, err, byte(wire.ExpectOpen), m.Conds[0].Value)
					}
				case 1:
					var b []byte
					if b, err = xproto.CapabilitySet(s, true); err == nil {
						m, err = only(b, nil)
					}
					if err == nil {
						err = same(m, err, byte(wire.CapabilitiesSet), m.Caps[0].Name)
					}
				case 2:
					m, err = only(xproto.AuthenticateStart(nil, s, pre), nil)
					if err = same(m, err, byte(wire.AuthenticateStart), m.Mech); err == nil && m.AuthData != string(pre) {
						err = fmt.Errorf("data %q", m.AuthData)
					}
				case 3:
					m, err = only(xproto.AuthenticateStart(nil, "m", []byte(s)), nil)
					err = same(m, err, byte(wire.AuthenticateStart), m.AuthData)
				case 4:
					m, err = only(xproto.AuthenticateContinue(nil, []byte(s)), nil)
					err = same(m, err, byte(wire.AuthenticateContinue), m.AuthData)
				default:
					out := append([]byte(nil), pre...)
					switch kind {
					case 5:
						out, err = xproto.AppendExprVariable(out, 3, s)
					case 6:
						out, err = xproto.AppendExprColumn(out, 3, s)
					case 7:
						out, err = xproto.AppendExprOperatorV(out, 3, s, 1, 2)
					case 8:
						out, err = xproto.AppendExprFunctionCallV(out, 3, s, 1, 2)
					}
					var e wire.Expr
					if err == nil {
						e, err = field(out, pre, 3)
					}
					want := []int{wire.Variable, wire.Ident, wire.Operator, wire.FuncCall}[kind-5]
					if err == nil && (e.Kind != want || e.Name != s || len(e.Params) != []int{0, 0, 2, 2}[kind-5]) {
						err = fmt.Errorf("arrives as kind %d, a name of %d bytes and %d parameters", e.Kind, len(e.Name), len(e.Params))
					}
				}
				if err != nil {
					t.Fatalf("%s of %d bytes: %v", what, n, err)
				}
				key := fmt.Sprintf("%s of %d bytes", what, n)
				c.NonTrivial(key)
				c.Sample(func() string { return key })
			})
			if n > 1<<20 {
				runtime.GC()
			}
		}
	}
}
