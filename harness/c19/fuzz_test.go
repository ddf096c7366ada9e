package c19

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzDecimals(f *testing.F) { hx.Fuzz(f, TestDecimals) }
