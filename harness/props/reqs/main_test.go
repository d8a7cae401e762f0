// Package reqs monitors RequestMap and StructUniqSet.
package reqs

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
