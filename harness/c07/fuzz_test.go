package c07

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzMisuse(f *testing.F) { hx.Fuzz(f, TestMisuse) }
