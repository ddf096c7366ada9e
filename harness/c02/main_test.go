package c02

import (
	"testing"

	"xtverif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }
