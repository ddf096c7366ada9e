package c21

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzFields(f *testing.F) { hx.Fuzz(f, TestFields) }

func FuzzExpect(f *testing.F) { hx.Fuzz(f, TestExpect) }
