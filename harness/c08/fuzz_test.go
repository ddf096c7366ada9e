package c08

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzPairing(f *testing.F) { hx.Fuzz(f, TestPairing) }
