package c03

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzCrud(f *testing.F) { hx.Fuzz(f, TestCrud) }
