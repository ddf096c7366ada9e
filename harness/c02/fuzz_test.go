package c02

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzArguments(f *testing.F) { hx.Fuzz(f, TestArguments) }
