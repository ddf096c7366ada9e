package c10

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzHistory(f *testing.F) { hx.Fuzz(f, TestHistory) }
