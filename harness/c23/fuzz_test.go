package c23

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzErrors(f *testing.F) { hx.Fuzz(f, TestErrors) }
