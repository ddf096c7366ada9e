package c04

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzTrees(f *testing.F) { hx.Fuzz(f, TestTrees) }
