// Package chansp monitors ChunkChan, ShardChan, ShardChunk and Runner.
package chansp

import (
	"testing"

	"axverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
