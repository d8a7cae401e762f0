// Package whole monitors what all parts of the library have in common: builders
// and functions given by the user.
package whole

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
