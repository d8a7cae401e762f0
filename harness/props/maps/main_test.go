package maps

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
