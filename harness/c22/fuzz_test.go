package c22

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzDecode(f *testing.F) { hx.Fuzz(f, TestDecode) }

func FuzzEncode(f *testing.F) { hx.Fuzz(f, TestEncode) }
