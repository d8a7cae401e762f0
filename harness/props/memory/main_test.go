// Package memory monitors what collections, channels and runners keep.
package memory

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
