package c18

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzDurations(f *testing.F) { hx.Fuzz(f, TestDurations) }

func FuzzTimes(f *testing.F) { hx.Fuzz(f, TestTimes) }
