package c09

import (
	"testing"

	"xtverif/hx"
)

// Coverage-guided search over the same cases (thorough tier).

func FuzzDamage(f *testing.F) { hx.Fuzz(f, TestDamage) }

func FuzzMalformed(f *testing.F) { hx.Fuzz(f, TestMalformed) }
