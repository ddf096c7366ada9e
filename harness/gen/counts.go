package gen

import (
	"fmt"

	"xtverif/wire"
)

// Counts are numbers of things (rows, arguments, operations): all small ones, and those around
// powers of two and of ten.
func Counts(small, max int) []int {
	var r []int
	for i := 0; i <= small && i <= max; i++ {
		r = append(r, i)
	}
	for _, b := range []int{256, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000} {
		for d := -1; d <= 1; d++ {
			if n := b + d; n > small && n <= max {
				r = append(r, n)
			}
		}
	}
	return r
}

// Numbered is a small literal that tells where it is from.
func Numbered(i int) Ex {
	switch i % 5 {
	case 0:
		return NullEx()
	case 1:
		s := fmt.Sprint("v", i)
		return lit(Val{V: s, W: strWant(s, 0)})
	case 2:
		return lit(Val{V: uint64(i), W: Want{S: wire.Scalar{Type: wire.Uint, Uint: uint64(i)}}})
	case 3:
		return lit(Val{V: -i, W: Want{S: wire.Scalar{Type: wire.Sint, Int: int64(-i)}}})
	}
	return Column(fmt.Sprint("c", i))
}

// NumberedArg is a small argument that tells where it is from.
func NumberedArg(i int) Val {
	switch i % 4 {
	case 0:
		return Val{V: nil, W: null}
	case 1:
		s := fmt.Sprint("v", i)
		return Val{V: s, W: strWant(s, 0)}
	case 2:
		return Val{V: uint64(i), W: Want{S: wire.Scalar{Type: wire.Uint, Uint: uint64(i)}}}
	}
	return Val{V: -i, W: Want{S: wire.Scalar{Type: wire.Sint, Int: int64(-i)}}}
}
