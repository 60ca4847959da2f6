package props

import (
	"testing"

	"verif/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }
