package c01

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzProgram(f *testing.F) { hx.Fuzz(f, TestProgram) }
