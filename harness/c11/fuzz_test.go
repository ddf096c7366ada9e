package c11

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzMechanisms(f *testing.F) { hx.Fuzz(f, TestMechanisms) }
