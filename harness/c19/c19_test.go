package c19

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/types"

	"xtverif/gen"
	"xtverif/hx"
)

// number is a decimal and its encoding.
type number struct {
	digits string
	scale  int
	sign   byte // sign nibble
	enc    []byte
}

func (n *number) negative() bool { return n.sign == 0xB || n.sign == 0xD }

func (n *number) String() string {
	return fmt.Sprintf("digits %s, scale %d, sign %X", n.digits, n.scale, n.sign)
}

func (n *number) coefficient() *big.Int {
	v, ok := new(big.Int).SetString(n.digits, 10)
	if !ok {
		hx.HarnessError("digits %q", n.digits)
	}
	return v
}

func (n *number) encode(pad byte) {
	nib := make([]byte, 0, len(n.digits)+2)
	for _, c := range []byte(n.digits) {
		nib = append(nib, c-'0')
	}
	nib = append(nib, n.sign)
	if len(nib)%2 == 1 {
		nib = append(nib, pad)
	}
	n.enc = []byte{byte(n.scale)}
	for i := 0; i < len(nib); i += 2 {
		n.enc = append(n.enc, nib[i]<<4|nib[i+1])
	}
}

func draw(g *gen.G) *number {
	var sb strings.Builder
	k := g.Int(1, 65, "digits")
	if g.Chance(30, "few") {
		k = g.Int(1, 8, "digits")
	}
	switch g.Pick(4, "kind") {
	case 0:
		sb.WriteString(strings.Repeat(string(rune('0'+g.Int(0, 9, "d"))), k))
	case 1: // leading zeros
		z := g.Int(0, k, "zeros")
		sb.WriteString(strings.Repeat("0", z))
		for i := z; i < k; i++ {
			sb.WriteByte(byte('0' + g.Int(0, 9, "d")))
		}
	default:
		for i := 0; i < k; i++ {
			sb.WriteByte(byte('0' + g.Int(0, 9, "d")))
		}
	}
	n := &number{digits: sb.String(), scale: g.Int(0, 30, "scale"), sign: []byte{0xC, 0xD, 0xC, 0xD, 0xA, 0xB, 0xE, 0xF}[g.Pick(8, "sign")]}
	if g.Chance(40, "within") && n.scale > k {
		n.scale = g.Int(0, k, "scale")
	}
	n.encode(0)
	return n
}

var textRE = regexp.MustCompile(`^(-?)(\d*)(?:\.(\d+))?$`)

func checkString(n *number, s string) error {
	m := textRE.FindStringSubmatch(s)
	if m == nil || m[2] == "" && m[3] == "" {
		return fmt.Errorf("%v prints as %q, which is not a decimal", n, s)
	}
	v, _ := new(big.Int).SetString(m[2]+m[3], 10)
	if len(m[3]) != n.scale || v.Cmp(n.coefficient()) != 0 {
		return fmt.Errorf("%v prints as %q", n, s)
	}
	if v.Sign() != 0 && (m[1] == "-") != n.negative() {
		return fmt.Errorf("%v prints as %q", n, s)
	}
	return nil
}

func checkDecompose(n *number, form byte, neg bool, coef []byte, exp int32) error {
	v := new(big.Int).SetBytes(coef)
	if form != 0 || exp != -int32(n.scale) || v.Cmp(n.coefficient()) != 0 || v.Sign() != 0 && neg != n.negative() {
		return fmt.Errorf("%v decomposes into form %d, negative %v, coefficient %v, exponent %d", n, form, neg, v, exp)
	}
	return nil
}

func check(n *number, buf []byte) error {
	d := types.Decimal(n.enc)
	before := append([]byte(nil), d...)
	if err := checkString(n, d.String()); err != nil {
		return err
	}
	form, neg, coef, exp := d.Decompose(buf)
	if err := checkDecompose(n, form, neg, coef, exp); err != nil {
		return err
	}
	if !bytes.Equal(before, d) {
		return fmt.Errorf("%v: the encoded value was changed", n)
	}
	return checkString(n, d.String())
}

func TestDecimals(t *testing.T) {
	hx.Check(t, 40000, 700000, "decimals of 1 to 65 digits (leading and repeated digits, all zeros), scale 0 to 30 (also more than the digits), every sign nibble, decomposed into buffers of any capacity and content; non-trivial: at least 2 digits and a scale", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		n := draw(g)
		var buf []byte
		if g.Chance(70, "buf") {
			buf = gen.Pattern(g.Int(0, 40, "buf"), 0xA5, byte(g.Int(0, 255, "s")))
			buf = buf[:g.Int(0, len(buf), "len")]
		}
		if err := check(n, buf); err != nil {
			t.Fatalf("%v", err)
		}
		c.ClassIf(n.negative(), "negative")
		c.ClassIf(n.scale > len(n.digits), "scale above the digits")
		c.ClassIf(n.scale == len(n.digits), "scale equals the digits")
		c.ClassIf(len(n.digits) > 38, "more than 38 digits")
		c.ClassIf(len(n.digits)%2 == 1, "odd digits")
		if len(n.digits) >= 2 && n.scale > 0 {
			c.NonTrivial(n.String())
			c.Sample(func() string { return n.String() + " = " + types.Decimal(n.enc).String() })
		}
	})
}

// Every decimal of up to 4 digits, every scale up to 6, every sign.
func TestSmall(t *testing.T) {
	max := hx.N(3, 4)
	hx.Rule(t, fmt.Sprintf("every sequence of 1 to %d digits, scale 0 to 6, each sign nibble; non-trivial: all", max))
	for k, lim := 1, 10; k <= max; k, lim = k+1, lim*10 {
		for v := 0; v < lim; v++ {
			for scale := 0; scale <= 6; scale++ {
				for _, sign := range []byte{0xA, 0xB, 0xC, 0xD, 0xE, 0xF} {
					hx.Each(t, func(c *hx.Case) {
						n := &number{digits: fmt.Sprintf("%0*d", k, v), scale: scale, sign: sign}
						n.encode(0)
						if err := check(n, nil); err != nil {
							t.Fatal(err)
						}
						c.NonTrivial(n.String())
						c.Sample(n.String)
					})
				}
			}
		}
	}
	hx.Exhaustive(t)
}

func bigOf(x types.Uint256) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(x[i]))
	}
	return v
}

func TestUint256(t *testing.T) {
	hx.Check(t, 60000, 1000000, "1 to 6 multiply-adds on any 256-bit number (limbs 0, all ones, near powers of two), and its big-endian output after 0 to 20 bytes; non-trivial: a carry out of 256 bits or between limbs", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		limb := func(l string) uint64 {
			switch g.Pick(4, l+".k") {
			case 0:
				return ^uint64(0)
			case 1:
				return 0
			}
			return g.Uint64(64, l)
		}
		var x types.Uint256
		for i := range x {
			x[i] = limb("x")
		}
		mod := new(big.Int).Lsh(big.NewInt(1), 256)
		nt := false
		var desc []string
		for i, n := 0, g.Int(1, 6, "ops"); i < n; i++ {
			y, z := limb("y"), limb("z")
			want := bigOf(x)
			desc = append(desc, fmt.Sprintf("%v*%d+%d", want, y, z))
			want.Mul(want, new(big.Int).SetUint64(y)).Add(want, new(big.Int).SetUint64(z))
			carry := x.MulAdd(y, z)
			got := bigOf(x)
			nt = nt || carry != 0 || want.BitLen() > 64
			full := new(big.Int).Mul(new(big.Int).SetUint64(carry), mod)
			full.Add(full, got)
			if full.Cmp(want) != 0 {
				t.Fatalf("%s gives carry %d and %v", desc[len(desc)-1], carry, got)
			}
			c.ClassIf(carry != 0, "carry")
		}
		pre := gen.Pattern(g.Int(0, 20, "pre"), 3, 7)
		p := append(make([]byte, 0, len(pre)+g.Int(0, 40, "cap")), pre...)
		y := x
		out := x.AppendBytes(p)
		if !bytes.HasPrefix(out, pre) || new(big.Int).SetBytes(out[len(pre):]).Cmp(bigOf(y)) != 0 || x != y {
			t.Fatalf("%v appended to %d bytes gives %x", bigOf(y), len(pre), out)
		}
		if nt {
			key := strings.Join(desc, "; ")
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}
