package c17

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzHistories(f *testing.F) { hx.Fuzz(f, TestHistories) }
