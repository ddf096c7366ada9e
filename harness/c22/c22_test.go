package c22

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/protobuf/mysqlx"

	"xtverif/gen"
	"xtverif/hx"
)

var def = load()

// pick draws a message that has fields.
func pick(g *gen.G) string {
	for i, k := 0, g.Int(0, 1<<30, "message")*31+g.Int(0, 1<<10, "message2"); ; i++ {
		if n := def.names[(k+i)%len(def.names)]; len(def.msgs[n].fields) > 0 {
			return n
		}
	}
}

// value is a message's content: for each field number, its values in order. A value is an
// int32 (enums), uint32, uint64, int64, bool, float32, float64, string, []byte or *value.
type value struct {
	m *message
	f map[int][]interface{}
}

func draw(g *gen.G, m *message, depth int, label string) *value {
	v := &value{m: m, f: map[int][]interface{}{}}
	for _, f := range m.fields {
		n := 0
		switch {
		case f.label == "required":
			n = 1
		case f.label == "optional" && g.Chance(55, label+"."+f.name+"?"):
			n = 1
		case f.label == "repeated" && g.Chance(60, label+"."+f.name+"?"):
			n = g.Int(1, 4, label+"."+f.name+"#")
		}
		if depth <= 0 && f.msg != nil && f.label != "required" {
			n = 0
		}
		for i := 0; i < n; i++ {
			v.f[f.num] = append(v.f[f.num], one(g, f, depth, label+"."+f.name))
		}
	}
	return v
}

func one(g *gen.G, f *field, depth int, label string) interface{} {
	switch {
	case f.msg != nil:
		return draw(g, f.msg, depth-1, label)
	case f.enum != nil:
		return f.enum.nums[f.enum.names[g.Pick(len(f.enum.names), label)]]
	}
	switch f.typ {
	case "uint32":
		return uint32(g.Uint64(32, label))
	case "uint64":
		return g.Uint64(64, label)
	case "sint64":
		return g.Int64(64, label)
	case "bool":
		return g.Int(0, 1, label) == 1
	case "float":
		return math.Float32frombits(uint32(g.Uint64(32, label)))
	case "double":
		return g.Float64(label)
	case "string":
		return string(g.Bytes(label))
	case "bytes":
		return g.Bytes(label)
	}
	panic("type " + f.typ)
}

// varint appends x, sometimes with needless bytes (as any reader has to accept).
func varint(g *gen.G, b []byte, x uint64, long bool) []byte {
	n := 0
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
		n++
	}
	if long && n < 7 && g.Chance(10, "long") {
		return append(b, byte(x)|0x80, 0x80, 0)
	}
	return append(b, byte(x))
}

// encode writes v by the rules of protobuf; shuffled: fields in any order, unknown ones and
// overridden values among them.
func encode(g *gen.G, v *value, shuffled bool) []byte {
	type item struct {
		num int
		b   []byte
	}
	var items []item
	add := func(f *field, x interface{}) {
		var b []byte
		switch x := x.(type) {
		case *value:
			p := encode(g, x, shuffled)
			b = varint(g, varint(g, b, uint64(f.num)<<3|2, false), uint64(len(p)), shuffled)
			b = append(b, p...)
		case string:
			b = varint(g, varint(g, b, uint64(f.num)<<3|2, false), uint64(len(x)), shuffled)
			b = append(b, x...)
		case []byte:
			b = varint(g, varint(g, b, uint64(f.num)<<3|2, false), uint64(len(x)), shuffled)
			b = append(b, x...)
		case float32:
			b = varint(g, b, uint64(f.num)<<3|5, false)
			for i, u := 0, math.Float32bits(x); i < 4; i++ {
				b = append(b, byte(u>>(8*i)))
			}
		case float64:
			b = varint(g, b, uint64(f.num)<<3|1, false)
			for i, u := 0, math.Float64bits(x); i < 8; i++ {
				b = append(b, byte(u>>(8*i)))
			}
		default:
			var u uint64
			switch x := x.(type) {
			case int32:
				u = uint64(int64(x))
			case uint32:
				u = uint64(x)
			case uint64:
				u = x
			case int64:
				u = uint64(x<<1) ^ uint64(x>>63)
			case bool:
				if x {
					u = 1
				}
			}
			b = varint(g, varint(g, b, uint64(f.num)<<3, false), u, shuffled)
		}
		items = append(items, item{f.num, b})
	}
	for _, f := range v.m.fields {
		if shuffled && len(v.f[f.num]) == 1 && f.label != "repeated" && f.msg == nil && g.Chance(5, "override") {
			add(f, one(g, f, 0, "overridden"))
		}
		for _, x := range v.f[f.num] {
			add(f, x)
		}
	}
	if shuffled {
		for i := range items { // neighbours of different fields change places
			j := g.Int(0, len(items)-1, "at")
			if g.Chance(50, "swap") && j+1 < len(items) && items[j].num != items[j+1].num {
				items[j], items[j+1] = items[j+1], items[j]
			}
			_ = i
		}
		if g.Chance(15, "unknown") {
			num := 90 + g.Int(0, 5000, "unum")
			b := varint(g, nil, uint64(num)<<3|2, false)
			p := g.BytesN(g.Int(0, 9, "ulen"), "u")
			b = append(varint(g, b, uint64(len(p)), true), p...)
			k := g.Int(0, len(items), "uat")
			items = append(items[:k], append([]item{{num, b}}, items[k:]...)...)
		}
	}
	var out []byte
	for _, it := range items {
		out = append(out, it.b...)
	}
	return out
}

// decode reads b as an m by the rules of protobuf.
func decode(m *message, b []byte) (*value, error) {
	v := &value{m: m, f: map[int][]interface{}{}}
	uv := func() (uint64, error) {
		var x uint64
		for i := 0; i < 10 && i < len(b); i++ {
			x |= uint64(b[i]&0x7f) << (7 * i)
			if b[i] < 0x80 {
				b = b[i+1:]
				return x, nil
			}
		}
		return 0, fmt.Errorf("%s: varint", m.name)
	}
	for len(b) > 0 {
		tag, err := uv()
		if err != nil {
			return nil, err
		}
		f := m.byNum(int(tag >> 3))
		var x uint64
		var p []byte
		switch tag & 7 {
		case 0:
			if x, err = uv(); err != nil {
				return nil, err
			}
		case 1, 5:
			n := 8
			if tag&7 == 5 {
				n = 4
			}
			if len(b) < n {
				return nil, fmt.Errorf("%s: short", m.name)
			}
			for i := 0; i < n; i++ {
				x |= uint64(b[i]) << (8 * i)
			}
			b = b[n:]
		case 2:
			n, err := uv()
			if err != nil || n > uint64(len(b)) {
				return nil, fmt.Errorf("%s: length %d of %d", m.name, n, len(b))
			}
			p, b = b[:n], b[n:]
		default:
			return nil, fmt.Errorf("%s: wire type %d", m.name, tag&7)
		}
		if f == nil {
			if tag>>3 < 90 {
				return nil, fmt.Errorf("%s: field %d is not in the definition", m.name, tag>>3)
			}
			continue
		}
		wt := uint64(0)
		switch {
		case f.msg != nil || f.typ == "string" || f.typ == "bytes":
			wt = 2
		case f.typ == "double":
			wt = 1
		case f.typ == "float":
			wt = 5
		}
		if tag&7 != wt {
			return nil, fmt.Errorf("%s.%s: wire type %d, not %d", m.name, f.name, tag&7, wt)
		}
		var val interface{}
		switch {
		case f.msg != nil:
			if val, err = decode(f.msg, p); err != nil {
				return nil, err
			}
		case f.enum != nil:
			val = int32(x)
		case f.typ == "uint32":
			val = uint32(x)
		case f.typ == "uint64":
			val = x
		case f.typ == "sint64":
			val = int64(x>>1) ^ -int64(x&1)
		case f.typ == "bool":
			val = x != 0
		case f.typ == "float":
			val = math.Float32frombits(uint32(x))
		case f.typ == "double":
			val = math.Float64frombits(x)
		case f.typ == "string":
			val = string(p)
		case f.typ == "bytes":
			val = append([]byte{}, p...)
		}
		if f.label == "repeated" {
			v.f[f.num] = append(v.f[f.num], val)
		} else {
			if len(v.f[f.num]) == 1 && f.msg != nil {
				return nil, fmt.Errorf("%s.%s: twice", m.name, f.name)
			}
			v.f[f.num] = []interface{}{val}
		}
	}
	return v, nil
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func diff(a, b *value) error {
	for _, f := range a.m.fields {
		x, y := a.f[f.num], b.f[f.num]
		if len(x) != len(y) {
			return fmt.Errorf("%s.%s: %d values, not %d", a.m.name, f.name, len(y), len(x))
		}
		for i := range x {
			if f.msg != nil {
				if err := diff(x[i].(*value), y[i].(*value)); err != nil {
					return err
				}
			} else if !same(x[i], y[i]) {
				return fmt.Errorf("%s.%s: %v, not %v", a.m.name, f.name, y[i], x[i])
			}
		}
	}
	return nil
}

func (v *value) String() string {
	var p []string
	for _, f := range v.m.fields {
		for _, x := range v.f[f.num] {
			s := fmt.Sprint(x)
			if b, ok := x.([]byte); ok {
				s = fmt.Sprintf("%x", b)
			}
			if len(s) > 60 {
				s = s[:60] + ".."
			}
			p = append(p, f.name+"="+s)
		}
	}
	return v.m.name[strings.LastIndex(v.m.name, ".")+1:] + "{" + strings.Join(p, " ") + "}"
}

// fresh is an empty message of the bindings.
func fresh(m *message) (proto.Message, error) {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(m.name))
	if err != nil {
		return nil, err
	}
	pm, ok := mt.New().Interface().(proto.Message)
	if !ok {
		return nil, fmt.Errorf("%s: no message", m.name)
	}
	return pm, nil
}

// zero is what the getter of an absent field gives.
func zero(f *field) interface{} {
	switch {
	case f.enum != nil:
		if f.def != "" {
			return f.enum.nums[f.def]
		}
		return f.enum.nums[f.enum.names[0]]
	}
	switch f.typ {
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	case "sint64":
		return int64(0)
	case "bool":
		return f.def == "true"
	case "float":
		return float32(0)
	case "double":
		return float64(0)
	case "string":
		return f.def
	case "bytes":
		return []byte(f.def)
	}
	panic(f.typ)
}

func plain(f *field, r reflect.Value) interface{} {
	if f.enum != nil {
		if r.Kind() != reflect.Int32 {
			return fmt.Sprintf("a %v", r.Type())
		}
		return int32(r.Int())
	}
	return r.Interface()
}

// read compares msg, through its getters, with v (nil: an absent message).
func read(msg reflect.Value, m *message, v *value) error {
	for _, f := range m.fields {
		get := msg.MethodByName("Get" + goName(f.name))
		if !get.IsValid() || get.Type().NumIn() != 0 || get.Type().NumOut() != 1 {
			return fmt.Errorf("%s: no getter for %s", m.name, f.name)
		}
		r := get.Call(nil)[0]
		var want []interface{}
		if v != nil {
			want = v.f[f.num]
		}
		at := fmt.Sprintf("%s.%s", m.name, f.name)
		if f.label == "repeated" {
			if r.Len() != len(want) {
				return fmt.Errorf("%s: %d values, not %d", at, r.Len(), len(want))
			}
			for i, w := range want {
				if f.msg != nil {
					if err := read(r.Index(i), f.msg, w.(*value)); err != nil {
						return err
					}
				} else if got := plain(f, r.Index(i)); !same(w, got) {
					return fmt.Errorf("%s[%d]: %v, not %v", at, i, got, w)
				}
			}
			continue
		}
		if f.msg != nil {
			if r.IsNil() != (len(want) == 0) {
				return fmt.Errorf("%s: nil is %v", at, r.IsNil())
			}
			var w *value
			if len(want) > 0 {
				w = want[0].(*value)
			}
			if w != nil || m != f.msg && v != nil {
				if err := read(r, f.msg, w); err != nil {
					return err
				}
			}
			continue
		}
		w := zero(f)
		if len(want) > 0 {
			w = want[0]
		}
		if got := plain(f, r); !same(w, got) {
			return fmt.Errorf("%s: %v, not %v (set: %v)", at, got, w, len(want) > 0)
		}
		// Presence: the field is a pointer, or for bytes a slice, that is nil when absent.
		if v != nil {
			sf := msg.Elem().FieldByName(goName(f.name))
			if !sf.IsValid() {
				return fmt.Errorf("%s: no struct field", at)
			}
			if sf.IsNil() != (len(want) == 0) {
				return fmt.Errorf("%s: nil is %v, set is %v", at, sf.IsNil(), len(want) > 0)
			}
		}
	}
	return nil
}

// fill sets the struct fields of msg to v.
func fill(msg reflect.Value, v *value) error {
	for _, f := range v.m.fields {
		sf := msg.Elem().FieldByName(goName(f.name))
		if !sf.IsValid() {
			return fmt.Errorf("%s: no struct field for %s", v.m.name, f.name)
		}
		for _, x := range v.f[f.num] {
			et := sf.Type()
			if f.label == "repeated" {
				et = et.Elem()
			}
			var e reflect.Value
			if f.msg != nil {
				e = reflect.New(et.Elem())
				if err := fill(e, x.(*value)); err != nil {
					return err
				}
			} else {
				vt := et
				ptr := et.Kind() == reflect.Ptr
				if ptr {
					vt = et.Elem()
				}
				xv := reflect.ValueOf(x)
				if !xv.Type().ConvertibleTo(vt) || vt.Kind() != xv.Kind() {
					return fmt.Errorf("%s.%s: a %v, the definition has %s", v.m.name, f.name, vt, f.typ)
				}
				e = xv.Convert(vt)
				if ptr {
					p := reflect.New(vt)
					p.Elem().Set(e)
					e = p
				}
			}
			if f.label == "repeated" {
				sf.Set(reflect.Append(sf, e))
			} else {
				sf.Set(e)
			}
		}
	}
	return nil
}

func count(v *value) int {
	n := 0
	for _, l := range v.f {
		n += len(l)
		for _, x := range l {
			if m, ok := x.(*value); ok {
				n += count(m)
			}
		}
	}
	return n
}

// What the definition's encoding says is what the bindings read.
func TestDecode(t *testing.T) {
	hx.Check(t, 20000, 300000, "a message of any type with random fields, nested up to 5 deep, encoded by an encoder of the definition (fields in any order, overridden values, unknown fields, long varints), read by the bindings and compared through the getters, absent fields by their defaults; then written by the bindings and decoded again; non-trivial: 3 or more values", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		m := def.msgs[pick(g)]
		v := draw(g, m, g.Int(0, 4, "depth"), "v")
		b := encode(g, v, true)
		c.Class(m.name)
		if count(v) >= 3 {
			c.NonTrivial(string(b) + m.name)
			c.Sample(v.String)
		}
		msg, err := fresh(m)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if g.Chance(30, "used") { // a used message is cleared first
			if err := fill(reflect.ValueOf(msg), draw(g, m, 1, "old")); err != nil {
				t.Fatalf("%v", err)
			}
		}
		if err := proto.Unmarshal(b, msg); err != nil {
			t.Fatalf("%v: %x is not read: %v", v, b, err)
		}
		if err := read(reflect.ValueOf(msg), m, v); err != nil {
			t.Fatalf("%v read from %x: %v", v, b, err)
		}
		again, err := proto.Marshal(msg)
		if err != nil {
			t.Fatalf("%v: written again: %v", v, err)
		}
		w, err := decode(m, again)
		if err != nil {
			t.Fatalf("%v written again: %v", v, err)
		}
		if err := diff(v, w); err != nil {
			t.Fatalf("%v written again: %v", v, err)
		}
		msg.Reset()
		if err := read(reflect.ValueOf(msg), m, &value{m: m}); err != nil {
			t.Fatalf("after Reset: %v", err)
		}
	})
}

// What is set in the bindings' messages is what the definition's decoder reads.
func TestEncode(t *testing.T) {
	hx.Check(t, 20000, 300000, "a message of any type made by setting the fields of the bindings, nested up to 5 deep, read through its getters, written, and decoded by a decoder of the definition; non-trivial: 3 or more values", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		m := def.msgs[pick(g)]
		v := draw(g, m, g.Int(0, 4, "depth"), "v")
		c.Class(m.name)
		if count(v) >= 3 {
			c.NonTrivial(v.String())
			c.Sample(v.String)
		}
		msg, err := fresh(m)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if err := fill(reflect.ValueOf(msg), v); err != nil {
			t.Fatalf("%v", err)
		}
		if err := read(reflect.ValueOf(msg), m, v); err != nil {
			t.Fatalf("%v: %v", v, err)
		}
		b, err := proto.Marshal(msg)
		if err != nil {
			t.Fatalf("%v is not written: %v", v, err)
		}
		if n := proto.Size(msg); n != len(b) {
			t.Fatalf("%v: %d bytes, Size says %d", v, len(b), n)
		}
		w, err := decode(m, b)
		if err != nil {
			t.Fatalf("%v: %x: %v", v, b, err)
		}
		if err := diff(v, w); err != nil {
			t.Fatalf("%v: %x: %v", v, b, err)
		}
	})
}

// Each field alone, at its extremes, and each required field missing.
func TestFields(t *testing.T) {
	hx.Rule(t, "every field of every message alone (besides the required ones), with extreme values; every required field left out: it must neither be read nor written; getters of nil messages; exhaustive over the fields; non-trivial: all")
	hx.Exhaustive(t)
	extremes := map[string][]interface{}{
		"uint32": {uint32(0), uint32(1), uint32(127), uint32(128), uint32(1 << 31), uint32(math.MaxUint32)},
		"uint64": {uint64(0), uint64(1), uint64(1) << 32, uint64(1) << 63, uint64(math.MaxUint64)},
		"sint64": {int64(0), int64(-1), int64(1), int64(math.MinInt64), int64(math.MaxInt64)},
		"bool":   {false, true},
		"float":  {float32(0), float32(math.Copysign(0, -1)), float32(1.5), float32(math.MaxFloat32), float32(math.Inf(-1))},
		"double": {0.0, math.Copysign(0, -1), 1.5, math.MaxFloat64, math.Inf(1)},
		"string": {"", "x", "sql", strings.Repeat("y", 200)},
		"bytes":  {[]byte{}, []byte{0}, bytes.Repeat([]byte{255}, 200)},
	}
	var base func(m *message, depth int) *value
	base = func(m *message, depth int) *value {
		v := &value{m: m, f: map[int][]interface{}{}}
		for _, f := range m.fields {
			if f.label != "required" {
				continue
			}
			switch {
			case f.msg != nil:
				v.f[f.num] = []interface{}{base(f.msg, depth+1)}
			case f.enum != nil:
				v.f[f.num] = []interface{}{f.enum.nums[f.enum.names[0]]}
			default:
				v.f[f.num] = []interface{}{extremes[f.typ][1]}
			}
		}
		return v
	}
	for _, name := range def.names {
		m := def.msgs[name]
		nilMsg, err := fresh(m)
		if err != nil {
			t.Fatalf("%v", err)
		}
		hx.Each(t, func(c *hx.Case) {
			c.NonTrivial(name)
			c.Sample(func() string { return name + " nil" })
			if err := read(reflect.Zero(reflect.TypeOf(nilMsg)), m, nil); err != nil {
				t.Fatalf("nil: %v", err)
			}
		})
		for _, f := range m.fields {
			f := f
			var vals []interface{}
			switch {
			case f.msg != nil:
				vals = []interface{}{base(f.msg, 0)}
			case f.enum != nil:
				for _, n := range f.enum.names {
					vals = append(vals, f.enum.nums[n])
				}
			default:
				vals = extremes[f.typ]
			}
			for _, x := range vals {
				for n := 1; n <= 2; n++ {
					if n == 2 && f.label != "repeated" {
						continue
					}
					hx.Each(t, func(c *hx.Case) {
						v := base(m, 0)
						v.f[f.num] = nil
						for i := 0; i < n; i++ {
							v.f[f.num] = append(v.f[f.num], x)
						}
						c.NonTrivial(v.m.name + v.String())
						c.Sample(v.String)
						msg, _ := fresh(m)
						b := encode(nil, v, false)
						if err := proto.Unmarshal(b, msg); err != nil {
							t.Fatalf("%v: %v", v, err)
						}
						if err := read(reflect.ValueOf(msg), m, v); err != nil {
							t.Fatalf("%v read: %v", v, err)
						}
						made, _ := fresh(m)
						if err := fill(reflect.ValueOf(made), v); err != nil {
							t.Fatalf("%v", err)
						}
						b, err := proto.Marshal(made)
						if err != nil {
							t.Fatalf("%v: %v", v, err)
						}
						w, err := decode(m, b)
						if err == nil {
							err = diff(v, w)
						}
						if err != nil {
							t.Fatalf("%v written: %v", v, err)
						}
						if !proto.Equal(msg, made) {
							t.Fatalf("%v: read and made are not equal", v)
						}
					})
				}
			}
			if f.label == "required" {
				hx.Each(t, func(c *hx.Case) {
					v := base(m, 0)
					delete(v.f, f.num)
					c.NonTrivial("without " + f.name + v.m.name + v.String())
					c.Sample(func() string { return v.String() + " without " + f.name })
					msg, _ := fresh(m)
					if err := proto.Unmarshal(encode(nil, v, false), msg); err == nil {
						t.Fatalf("%v without %s is read", v, f.name)
					}
					made, _ := fresh(m)
					if err := fill(reflect.ValueOf(made), v); err != nil {
						t.Fatalf("%v", err)
					}
					if b, err := proto.Marshal(made); err == nil {
						t.Fatalf("%v without %s is written: %x", v, f.name, b)
					}
				})
			}
		}
	}
}

// Enum constants, and the message ids attached to the messages.
func TestNumbers(t *testing.T) {
	hx.Rule(t, "every enum constant (its number, text, number by name) and every message's client and server message id; exhaustive; non-trivial: all")
	hx.Exhaustive(t)
	for _, k := range constants {
		hx.Each(t, func(c *hx.Case) {
			c.NonTrivial(k.enum + k.name)
			c.Sample(func() string { return k.enum + "." + k.name })
			if def.enums[k.enum].nums[k.name] != k.num {
				hx.HarnessError("%s %s", k.enum, k.name)
			}
			if k.got != k.num || k.text != k.name {
				t.Fatalf("%s.%s = %d: the constant is %d and prints as %s", k.enum, k.name, k.num, k.got, k.text)
			}
			if p := reflect.ValueOf(k.ptr); p.Kind() != reflect.Ptr || int32(p.Elem().Int()) != k.num {
				t.Fatalf("%s.%s: Enum gives %v", k.enum, k.name, p)
			}
			et, err := protoregistry.GlobalTypes.FindEnumByName(protoreflect.FullName(k.enum))
			if err != nil {
				t.Fatalf("%s: %v", k.enum, err)
			}
			d := et.Descriptor().Values()
			if n := d.ByName(protoreflect.Name(k.name)); n == nil || int32(n.Number()) != k.num {
				t.Fatalf("%s.%s: not %d by name", k.enum, k.name, k.num)
			}
			if n := d.ByNumber(protoreflect.EnumNumber(k.num)); n == nil || string(n.Name()) != k.name {
				t.Fatalf("%s.%s: not %d by number", k.enum, k.name, k.num)
			}
			if d.Len() != len(def.enums[k.enum].names) {
				t.Fatalf("%s has %d values, not %d", k.enum, d.Len(), len(def.enums[k.enum].names))
			}
		})
	}
	for _, name := range def.names {
		hx.Each(t, func(c *hx.Case) {
			m := def.msgs[name]
			c.NonTrivial(name)
			c.Sample(func() string { return name + " client " + m.client + " server " + m.server })
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
			if err != nil {
				t.Fatalf("%s: %v", name, err)
			}
			if n := mt.Descriptor().Fields().Len(); n != len(m.fields) {
				t.Fatalf("%s has %d fields, not %d", name, n, len(m.fields))
			}
			opts := proto.MessageV1(mt.Descriptor().Options())
			client, server := "", ""
			if x, err := proto.GetExtension(opts, mysqlx.E_ClientMessageId); err == nil {
				client = fmt.Sprint(*x.(*mysqlx.ClientMessages_Type))
			}
			if x, err := proto.GetExtension(opts, mysqlx.E_ServerMessageId); err == nil {
				server = fmt.Sprint(*x.(*mysqlx.ServerMessages_Type))
			}
			if client != m.client || server != m.server {
				t.Fatalf("%s: client message id %q, server %q, not %q, %q", name, client, server, m.client, m.server)
			}
		})
	}
}
