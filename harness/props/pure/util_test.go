package pure

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"

	"axverif/kit"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// fill makes n random bytes.
func fill(r *rand.Rand, n int) []byte {
	b := make([]byte, n+8)
	for i := 0; i < n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	return b[:n:n]
}

// content makes n bytes of one of several characters: noise, text, runs.
func content(r *rand.Rand, n int) []byte {
	switch r.IntN(5) {
	case 0:
		return bytes.Repeat([]byte{byte(r.Uint32())}, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = "the quick brown fox \r\n\x00"[r.IntN(23)]
		}
		return b
	case 2:
		unit := fill(r, 1+r.IntN(40))
		return bytes.Repeat(unit, n/len(unit)+1)[:n:n]
	}
	return fill(r, n)
}

// size favours the small sizes and the edges of blocks and buffers.
func size(r *rand.Rand, max int) int {
	n := 0
	switch r.IntN(8) {
	case 0:
		n = r.IntN(3)
	case 1, 2, 3:
		n = r.IntN(100)
	case 4, 5:
		n = (16 << r.IntN(13)) + r.IntN(3) - 1
	case 6:
		n = r.IntN(5000)
	case 7:
		n = r.IntN(max + 1)
	}
	return min(n, max)
}

// watched is an input with room behind it: neither it nor that room may change.
type watched struct {
	whole, was []byte
	n          int
}

func watch(r *rand.Rand, data []byte) *watched {
	w := &watched{n: len(data)}
	w.whole = append(append(make([]byte, 0, len(data)+64), data...), fill(r, r.IntN(64))...)
	w.was = append([]byte(nil), w.whole...)
	return w
}

func (w *watched) get() []byte { return w.whole[:w.n] }

func (w *watched) check(c *kit.Case, what string) {
	if !bytes.Equal(w.whole, w.was) {
		i := 0
		for w.whole[i] == w.was[i] {
			i++
		}
		if i < w.n {
			c.Violate("%s changed byte %d of its input of %d bytes", what, i, w.n)
		}
		c.Violate("%s wrote behind its input of %d bytes, at %d", what, w.n, i)
	}
}

// kept holds results that are the caller's, to see that they stay as they were.
type kept struct{ got, was [][]byte }

func (k *kept) add(b []byte) []byte {
	k.got = append(k.got, b)
	k.was = append(k.was, append([]byte(nil), b...))
	return b
}

func (k *kept) check(c *kit.Case, what string) {
	for i := range k.got {
		if !bytes.Equal(k.got[i], k.was[i]) {
			c.Violate("%s of %d bytes changes with a later call, %d calls later at most", what, len(k.got[i]), len(k.got)-i-1)
		}
	}
	// nor do they share memory
	for i := range k.got {
		for j := range k.got[i] {
			k.got[i][j] ^= 0xff
		}
		k.was[i] = append(k.was[i][:0], k.got[i]...)
	}
	for i := range k.got {
		if !bytes.Equal(k.got[i], k.was[i]) {
			c.Violate("%s of %d bytes changes as another is written to", what, len(k.got[i]))
		}
	}
	c.Events("results kept", len(k.got))
}

// show writes bytes for a report.
func show(b []byte) string {
	if len(b) > 60 {
		return string(append(hexOf(b[:60]), "..."...))
	}
	return string(hexOf(b))
}

func hexOf(b []byte) []byte {
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, "0123456789abcdef"[x>>4], "0123456789abcdef"[x&15])
	}
	return out
}
