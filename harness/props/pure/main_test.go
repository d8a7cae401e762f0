// Package pure monitors what has no shared state: Processor, crypto, zip, net, comparer, math.
package pure

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
