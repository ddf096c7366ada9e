package c20

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzStrings(f *testing.F) { hx.Fuzz(f, TestStrings) }
