// Package waits monitors WaitMap, ResponseMap and HolderMap.
package waits

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
