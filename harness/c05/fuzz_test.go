package c05

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzFaults(f *testing.F) { hx.Fuzz(f, TestFaults) }

func FuzzPanics(f *testing.F) { hx.Fuzz(f, TestPanics) }
