package gen

import (
	"unsafe"

	"xtverif/hx"
)

// Huge are lengths at which the four-byte prefix of a field becomes one of five bytes, that of
// a message needs its fourth byte, and others of that magnitude; over is the size of what
// surrounds the field.
func Huge(over int) []int {
	l := []int{1<<24 - over, 1<<24 - over/2, 1 << 24, 1<<28 - over, 1<<28 - 1, 1 << 28}
	if hx.Thorough() {
		for i := 1; i < over; i += 3 {
			l = append(l, 1<<24-i, 1<<28-i)
		}
		l = append(l, 1<<25, 1<<26+1, 1<<27)
	}
	return l
}

var huge []byte

// HugeBytes are the first n of bytes that tell where they are from; not to be changed.
func HugeBytes(n int) []byte {
	if huge == nil {
		huge = make([]byte, 1<<28+64)
		x := uint32(12345)
		for i := range huge {
			x = x*1664525 + 1013904223
			huge[i] = 'a' + byte(x>>24)%26
		}
	}
	return huge[:n:n]
}

// HugeString is the same as a string.
func HugeString(n int) string { return unsafe.String(unsafe.SliceData(HugeBytes(n+1)), n) }
