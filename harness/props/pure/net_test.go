package pure

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	stdnet "net"
	"os"
	"runtime"
	"time"

	"axverif/kit"

	axnet "github.com/axgrid/axutils/net"
)

// bits makes a value of a random width, often at an edge.
func bits(r *rand.Rand) uint64 {
	w := r.IntN(65)
	x := r.Uint64()
	if w < 64 {
		x &= 1<<w - 1
	}
	switch r.IntN(6) {
	case 0:
		if w < 64 {
			x = 1 << w
		}
	case 1:
		x = math.MaxUint64 >> (64 - w)
	}
	return x
}

func panics(f func()) (p any) {
	defer func() {
		if p = recover(); p != nil {
			if _, ok := p.(runtime.Error); ok {
				// an index out of range is a panic all the same
				return
			}
		}
	}()
	f()
	return nil
}

func codecInt(c *kit.Case, v int, n int) {
	b := axnet.GetBytesFromInt(v, n)
	if len(b) != n {
		c.Violate("GetBytesFromInt(%d, %d) has %d bytes", v, n, len(b))
	}
	for i := 0; i < n && i < 8; i++ {
		if b[i] != byte(v>>(8*i)) {
			c.Violate("GetBytesFromInt(%d, %d) is %x: not little-endian", v, n, b)
		}
	}
	w := append([]byte(nil), b...)
	if got := axnet.GetIntFromBytes(b); got != v {
		c.Violate("%d in %d bytes is %x, which reads as %d", v, n, b, got)
	}
	if !bytes.Equal(b, w) {
		c.Violate("GetIntFromBytes changed its input")
	}
}

// wrong is a value of a type PackUint and UnpackUint do not know.
var wrong = []any{nil, int(1), int8(1), int16(1), int32(1), int64(1), uint(1), uintptr(1), float64(1), "1", []byte{1}, true, struct{}{}}

func pack(c *kit.Case, order binary.ByteOrder, x uint64) {
	for _, width := range []int{1, 2, 4, 8} {
		v := x
		if width < 8 {
			v &= 1<<(8*width) - 1
		}
		var want []byte
		for i := range width {
			sh := 8 * i
			if order == binary.BigEndian {
				sh = 8 * (width - 1 - i)
			}
			want = append(want, byte(v>>sh))
		}
		var got []byte
		var back uint64
		var err error
		switch width {
		case 1:
			got = axnet.PackUint(order, uint8(v))
		case 2:
			got = axnet.PackUint(order, uint16(v))
		case 4:
			got = axnet.PackUint(order, uint32(v))
		case 8:
			got = axnet.PackUint(order, v)
		}
		if !bytes.Equal(got, want) {
			c.Violate("PackUint(%v, %#x of %d bytes) is %x, not %x", order, v, width, got, want)
		}
		in := append([]byte(nil), got...)
		switch width {
		case 1:
			y := ^uint8(v)
			err = axnet.UnpackUint(order, in, &y)
			back = uint64(y)
		case 2:
			y := ^uint16(v)
			err = axnet.UnpackUint(order, in, &y)
			back = uint64(y)
		case 4:
			y := ^uint32(v)
			err = axnet.UnpackUint(order, in, &y)
			back = uint64(y)
		case 8:
			y := ^v
			err = axnet.UnpackUint(order, in, &y)
			back = y
		}
		if err != nil || back != v {
			c.Violate("UnpackUint(%v, %x of %d bytes) is %#x, %v", order, got, width, back, err)
		}
		if !bytes.Equal(in, got) {
			c.Violate("UnpackUint changed its input")
		}
		c.Events("packed values", 1)
	}
}

func fixed(c *kit.Case, x uint64) {
	a, b := uint32(x), uint16(x)
	if g := axnet.GetBytesFromUInt32(a); len(g) != 4 || binary.LittleEndian.Uint32(g) != a {
		c.Violate("GetBytesFromUInt32(%#x) is %x", a, g)
	} else if y := axnet.GetUInt32FromBytes(g); y != a {
		c.Violate("GetUInt32FromBytes(%x) is %#x", g, y)
	}
	if g := axnet.GetBytesFromUInt16(b); len(g) != 2 || binary.LittleEndian.Uint16(g) != b {
		c.Violate("GetBytesFromUInt16(%#x) is %x", b, g)
	} else if y := axnet.GetUInt16FromBytes(g); y != b {
		c.Violate("GetUInt16FromBytes(%x) is %#x", g, y)
	}
	c.Events("fixed-width values", 2)
}

func sized(c *kit.Case, r *rand.Rand, d []byte) {
	w := watch(r, d)
	for _, k := range []int{2, 4} {
		if k == 2 && len(d) > math.MaxUint16 {
			continue
		}
		var got []byte
		if k == 2 {
			got = axnet.AddSize16(w.get())
		} else {
			got = axnet.AddSize32(w.get())
		}
		w.check(c, "AddSize")
		if len(got) != len(d)+k {
			c.Violate("AddSize%d of %d bytes has %d bytes", 8*k, len(d), len(got))
		}
		l := 0
		for i := range k {
			l |= int(got[i]) << (8 * i)
		}
		if l != len(d) || !bytes.Equal(got[k:], d) {
			c.Violate("AddSize%d of %d bytes says %d and holds %s", 8*k, len(d), l, show(got[k:]))
		}
		for i := range got {
			got[i] ^= 0xff
		}
		w.check(c, "writing to AddSize's result")
		c.Events("sizes added", 1)
	}
}

func chunked(c *kit.Case, r *rand.Rand, d []byte, n int) {
	w := watch(r, d)
	cs := axnet.Chunk(w.get(), n)
	w.check(c, "Chunk")
	var all []byte
	for i, x := range cs {
		if len(x) != n && (i < len(cs)-1 || len(x) > n || len(x) == 0) {
			c.Violate("Chunk of %d bytes by %d: piece %d of %d has %d bytes", len(d), n, i, len(cs), len(x))
		}
		all = append(all, x...)
	}
	if !bytes.Equal(all, d) {
		c.Violate("Chunk of %d bytes by %d: the pieces are %d bytes %s", len(d), n, len(all), show(all))
	}
	if want := (len(d) + n - 1) / n; len(cs) != want {
		c.Violate("Chunk of %d bytes by %d has %d pieces instead of %d", len(d), n, len(cs), want)
	}
	c.Events("pieces", len(cs))
}

func bools(c *kit.Case, r *rand.Rand, d []byte) {
	w := watch(r, d)
	got := axnet.ByteToBoolArray(w.get())
	if len(got) != 8*len(d) {
		c.Violate("ByteToBoolArray of %d bytes has %d elements", len(d), len(got))
	}
	for k, b := range got {
		if b != (d[k/8]>>(k%8)&1 == 1) {
			c.Violate("ByteToBoolArray(%x): element %d is %v", d, k, b)
		}
	}
	back := axnet.BoolArrayToByte(got)
	if !bytes.Equal(back, d) {
		c.Violate("%x as booleans and back is %x", d, back)
	}
	for _, n := range []int{0, r.IntN(8*len(d) + 1), 8 * len(d)} {
		part := axnet.ByteToBoolArray(w.get(), n)
		if len(part) != n {
			c.Violate("ByteToBoolArray of %d bytes, %d elements, has %d", len(d), n, len(part))
		}
		for k := range part {
			if part[k] != got[k] {
				c.Violate("ByteToBoolArray(%x, %d): element %d is %v", d, n, k, part[k])
			}
		}
		in := append(append([]bool(nil), got[:n]...), true, true, true)[:n]
		enc := axnet.BoolArrayToByte(in)
		if len(enc) != (n+7)/8 {
			c.Violate("BoolArrayToByte of %d elements has %d bytes", n, len(enc))
		}
		for i := range enc {
			var want byte
			for j := 0; j < 8 && 8*i+j < n; j++ {
				if got[8*i+j] {
					want |= 1 << j
				}
			}
			if enc[i] != want {
				c.Violate("BoolArrayToByte(%v): byte %d is %08b, not %08b", in, i, enc[i], want)
			}
		}
		for k := range in {
			if in[k] != got[k] {
				c.Violate("BoolArrayToByte changed its input")
			}
		}
		again := axnet.ByteToBoolArray(enc, n)
		for k := range again {
			if again[k] != got[k] {
				c.Violate("%d booleans in bytes and back: element %d is %v", n, k, again[k])
			}
		}
	}
	w.check(c, "ByteToBoolArray")
	c.Events("booleans", len(got))
}

func copied(c *kit.Case, r *rand.Rand, d []byte) {
	w := watch(r, d)
	l := r.IntN(len(d) + 1)
	got := axnet.CopyBytes(w.get(), l)
	if !bytes.Equal(got, d[:l]) {
		c.Violate("CopyBytes of %d of %d bytes gives %d: %s", l, len(d), len(got), show(got))
	}
	for i := range got {
		got[i] ^= 0xff
	}
	w.check(c, "CopyBytes or writing to its result")
	got = axnet.CopyBytes(w.get(), l)
	for i := range w.whole {
		w.whole[i] ^= 0xff
	}
	if !bytes.Equal(got, d[:l]) {
		c.Violate("a copy changes with its source")
	}
	c.Events("copies", 1)
}

// stream is a connection that delivers its data in pieces of its own choosing,
// and possibly fails at the end.
type stream struct {
	stdnet.Conn
	data   []byte
	at     int
	r      *rand.Rand
	end    error
	joined bool // the error comes with the last bytes
	empty  int  // how often a Read brings nothing
	reads  int
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	if s.at == len(s.data) {
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.empty > 0 && s.r.IntN(s.empty) == 0 {
		return 0, nil
	}
	n := min(len(p), len(s.data)-s.at)
	if s.r.IntN(3) > 0 {
		n = 1 + s.r.IntN(n)
	}
	copy(p, s.data[s.at:s.at+n])
	s.at += n
	if s.joined && s.at == len(s.data) {
		return n, s.end
	}
	return n, nil
}

func (s *stream) SetReadDeadline(time.Time) error { return nil }
func (s *stream) SetDeadline(time.Time) error     { return nil }

func isTimeout(err error) bool {
	var ne stdnet.Error
	return errors.Is(err, os.ErrDeadlineExceeded) || errors.As(err, &ne) && ne.Timeout()
}

var errBroken = errors.New("connection reset by test")

func init() {
	kit.Register(&kit.Prop{
		ID:   "C37",
		Rule: "distinct values and slices encoded and decoded",
		Parts: []kit.Part{
			{Name: "integers", N: 800, Fn: func(c *kit.Case) {
				r := c.R
				for range 60 {
					x := bits(r)
					for n := 1; n <= 8; n++ {
						v := x
						if n < 8 {
							v &= 1<<(8*n) - 1
						}
						codecInt(c, int(v), n)
						c.Distinct("int", v, n)
						c.Events("integers", 1)
					}
					// in more bytes than it has
					codecInt(c, int(x>>1), 9+r.IntN(24))
					pack(c, binary.LittleEndian, x)
					pack(c, binary.BigEndian, x)
					fixed(c, x)
				}
			}},
			{Name: "exhaustive small", N: 16, Factor: 1, Fn: func(c *kit.Case) {
				// all values of one and two bytes
				for k := range 1 << 12 {
					x := c.Idx<<12 | k
					codecInt(c, x, 2)
					codecInt(c, x&0xff, 1)
					fixed(c, uint64(x))
					pack(c, binary.LittleEndian, uint64(x))
					pack(c, binary.BigEndian, uint64(x))
				}
				c.Events("all 16-bit values, sixteenths", 1)
			}},
			{Name: "types", N: 8, Fn: func(c *kit.Case) {
				for _, v := range wrong {
					for _, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
						var out []byte
						if panics(func() { out = axnet.PackUint(o, v) }) == nil {
							c.Violate("PackUint of a %T returns %x instead of panicking", v, out)
						}
						var err error
						if p := panics(func() { err = axnet.UnpackUint(o, make([]byte, 16), v) }); p != nil {
							c.Violate("UnpackUint into a %T panics: %v", v, p)
						}
						if !errors.Is(err, axnet.ErrUnsupportedType) {
							c.Violate("UnpackUint into a %T returns %v, not ErrUnsupportedType", v, err)
						}
						c.Events("unsupported types", 1)
					}
				}
				var a int64
				var b float64
				var s string
				var u uint
				for _, v := range []any{&a, &b, &s, &u, uint64(1), uint8(1)} {
					if err := axnet.UnpackUint(binary.LittleEndian, make([]byte, 16), v); !errors.Is(err, axnet.ErrUnsupportedType) {
						c.Violate("UnpackUint into a %T returns %v, not ErrUnsupportedType", v, err)
					}
				}
			}},
			{Name: "slices", N: 2000, Fn: func(c *kit.Case) {
				r := c.R
				d := content(r, size(r, 3000))
				sized(c, r, d)
				for range 4 {
					chunked(c, r, d, 1+r.IntN(pick(r, 4, 30, len(d)+3, 2*len(d)+1)))
				}
				if len(d) > 0 {
					for n := 1; n*n <= len(d); n++ {
						if len(d)%n == 0 {
							chunked(c, r, d, n)
							chunked(c, r, d, len(d)/n)
							break
						}
					}
					chunked(c, r, d, len(d))
				}
				chunked(c, r, d, len(d)+1)
				bools(c, r, d[:min(len(d), 300)])
				copied(c, r, d)
				c.Distinct("slice", len(d), show(d))
				c.Sample(func() string { return fmt.Sprintf("%d bytes %s", len(d), show(d)) })
			}},
			{Name: "edges", N: 16, Fn: func(c *kit.Case) {
				r := c.R
				for _, l := range []int{0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 70000, 1 << 20} {
					sized(c, r, fill(r, l))
					chunked(c, r, fill(r, l), 1+r.IntN(1000))
				}
				for d := range 256 {
					bools(c, r, []byte{byte(d)})
					bools(c, r, []byte{byte(d), byte(r.Uint32())})
				}
				bools(c, r, nil)
				for _, l := range []int{511, 512, 513, 8191, 8192, 8193, 1 << 16, 100000} {
					bools(c, r, fill(r, l))
					copied(c, r, fill(r, l))
				}
				for n := range 320 {
					if n >= 300 {
						n = 1<<(n-300) + r.IntN(3) - 1
					}
					a := axnet.CreateAllTrueBoolArray(n)
					if len(a) != n {
						c.Violate("CreateAllTrueBoolArray(%d) has %d elements", n, len(a))
					}
					for i, b := range a {
						if !b {
							c.Violate("CreateAllTrueBoolArray(%d): element %d is false", n, i)
						}
					}
				}
				c.Events("edge lengths", 12)
			}},
			{Name: "concurrent", N: 40, Stress: true, Fn: func(c *kit.Case) {
				d := fill(c.R, 200)
				c.Go(4, func(g int, r *rand.Rand) {
					for range 20 {
						if got := axnet.GetIntFromBytes(d[:8]); got != int(binary.LittleEndian.Uint64(d)) {
							c.Violate("GetIntFromBytes of shared bytes is %#x", got)
						}
						if got := axnet.AddSize16(d); !bytes.Equal(got[2:], d) {
							c.Violate("AddSize16 of shared bytes is %s", show(got))
						}
						if got := axnet.BoolArrayToByte(axnet.ByteToBoolArray(d)); !bytes.Equal(got, d) {
							c.Violate("shared bytes as booleans and back are %s", show(got))
						}
						v := r.Uint64()
						var y uint64
						if axnet.UnpackUint(binary.BigEndian, axnet.PackUint(binary.BigEndian, v), &y); y != v {
							c.Violate("%#x packed and unpacked is %#x", v, y)
						}
						if n := len(axnet.Chunk(d, 7)); n != 29 {
							c.Violate("200 bytes are %d pieces of 7", n)
						}
					}
				})
				c.Events("concurrent uses", 80)
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C38",
		Rule: "distinct (stream, fragmentation, outcome) of reads compared with the bytes sent",
		Parts: []kit.Part{
			{Name: "fragments", N: 3000, Fn: func(c *kit.Case) {
				// consecutive reads of a stream that comes in pieces and ends in every way
				r := c.R
				s := &stream{data: fill(r, size(r, 3000)), r: r, joined: r.IntN(2) == 0, empty: pick(r, 0, 0, 3, 8)}
				s.end = pick(r, io.EOF, io.EOF, errBroken, error(io.ErrUnexpectedEOF), error(io.ErrClosedPipe))
				at, sig := 0, ""
				var reads kept
				for range 30 {
					n := pick(r, r.IntN(5), r.IntN(50), r.IntN(len(s.data)+2), len(s.data)-at)
					timed := r.IntN(2) == 0
					var got []byte
					var err error
					if timed {
						got, err = axnet.ReadNBytesWithTimeout(s, n, time.Hour)
					} else {
						got, err = axnet.ReadNBytes(s, n)
					}
					left := len(s.data) - at
					if n <= left {
						if err != nil {
							c.Violate("%d bytes wanted, %d there, error at the end %v (with its last bytes: %v), but the read fails: %v", n, left, s.end, s.joined, err)
						}
						if !bytes.Equal(got, s.data[at:at+n]) {
							c.Violate("the next %d bytes are %s, not %s", n, show(s.data[at:at+n]), show(got))
						}
						reads.add(got)
						at += n
						if s.at != at {
							c.Violate("a read of %d bytes took %d more from the stream", n, s.at-at)
						}
						c.Events("reads", 1)
						sig += fmt.Sprint(n, ",")
						continue
					}
					if err == nil {
						c.Violate("%d bytes wanted, %d there, but the read returns %d and no error", n, left, len(got))
					}
					c.Events("reads that fail", 1)
					sig += fmt.Sprint(n, "!")
					break
				}
				reads.check(c, "a read")
				c.Distinct(sig, len(s.data), fmt.Sprint(s.end), s.joined, s.reads)
				c.Sample(func() string { return fmt.Sprintf("%d bytes ending in %v, reads %s", len(s.data), s.end, sig) })
			}},
			{Name: "large", N: 12, Fn: func(c *kit.Case) {
				r := c.R
				s := &stream{data: fill(r, 1<<20+r.IntN(3<<20)), r: r, joined: r.IntN(2) == 0, end: io.EOF}
				at := 0
				var reads kept
				for at < len(s.data) {
					n := min(pick(r, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20, 1<<20+1, len(s.data)), len(s.data)-at)
					var got []byte
					var err error
					if r.IntN(2) == 0 {
						got, err = axnet.ReadNBytesWithTimeout(s, n, time.Hour)
					} else {
						got, err = axnet.ReadNBytes(s, n)
					}
					if err != nil || !bytes.Equal(got, s.data[at:at+n]) || s.at != at+n {
						c.Violate("a read of %d bytes at %d of %d returns %d bytes, %v, and takes %d", n, at, len(s.data), len(got), err, s.at-at)
					}
					at += n
					reads.add(got)
					c.Events("reads", 1)
				}
				reads.check(c, "a read")
				c.Distinct("large", len(s.data))
			}},
			{Name: "timing", N: 1500, Fn: func(c *kit.Case) {
				// a peer that writes in its own time, against the timeout
				r := c.R
				var sig string
				c.Bubble(func() {
					a, b := stdnet.Pipe()
					data := fill(r, 1+r.IntN(400))
					start := time.Now()
					type piece struct {
						at time.Duration
						n  int
					}
					var plan []piece
					var t time.Duration
					for sent := 0; sent < len(data); {
						n := 1 + r.IntN(len(data)-sent)
						if r.IntN(2) == 0 {
							n = min(n, 1+r.IntN(10))
						}
						t += time.Duration(r.IntN(40)) * time.Millisecond
						plan = append(plan, piece{t, n})
						sent += n
					}
					stop := r.IntN(3) == 0 // the peer ends early
					if stop {
						plan = plan[:r.IntN(len(plan)+1)]
					}
					shut := time.Duration(r.IntN(200)) * time.Millisecond
					done := make(chan struct{})
					go func() {
						defer close(done)
						off := 0
						for _, p := range plan {
							time.Sleep(p.at - time.Since(start))
							if _, err := b.Write(data[off : off+p.n]); err != nil {
								return
							}
							off += p.n
						}
						if stop {
							time.Sleep(shut)
							b.Close()
						}
					}()
					at := 0
					for at <= len(data) {
						n := pick(r, 1+r.IntN(5), 1+r.IntN(len(data)), len(data)-at)
						if n <= 0 {
							break
						}
						if r.IntN(3) == 0 {
							time.Sleep(time.Duration(r.IntN(50)) * time.Millisecond)
						}
						limit := time.Duration(1+r.IntN(300))*time.Millisecond + 500*time.Microsecond
						t0 := time.Now()
						got, err := axnet.ReadNBytesWithTimeout(a, n, limit)
						took := time.Since(t0)
						sig += fmt.Sprint(n, "/", took, "/", err != nil, " ")
						if took > limit {
							c.Violate("a read with a timeout of %v took %v", limit, took)
						}
						if err == nil {
							if at+n > len(data) || !bytes.Equal(got, data[at:at+n]) {
								c.Violate("the next %d bytes at %d of %d are %s", n, at, len(data), show(got))
							}
							at += n
							c.Events("reads in time", 1)
							continue
						}
						if isTimeout(err) {
							if took < limit {
								c.Violate("a read with a timeout of %v reports it after %v", limit, took)
							}
							c.Events("timeouts", 1)
						} else {
							c.Events("ends of the stream", 1)
							if !stop {
								c.Violate("the peer is still sending but the read fails: %v", err)
							}
						}
						break // what was read before the error is gone
					}
					a.Close()
					<-done
					b.Close()
				})
				if sig != "" {
					c.Distinct(sig)
				}
			}},
			{Name: "deadline to the point", N: 600, Fn: func(c *kit.Case) {
				// one piece arrives just before or just after the timeout
				r := c.R
				c.Bubble(func() {
					a, b := stdnet.Pipe()
					done := make(chan struct{})
					defer func() { a.Close(); <-done; b.Close() }()
					limit := time.Duration(1+r.IntN(100000)) * time.Millisecond
					early := r.IntN(2) == 0
					n := 1 + r.IntN(50)
					data := fill(r, n)
					delta := time.Duration(1 + r.IntN(1000))
					head := r.IntN(n)
					go func() {
						defer close(done)
						b.Write(data[:head])
						if early {
							time.Sleep(limit - delta)
						} else {
							time.Sleep(limit + delta)
						}
						b.Write(data[head:])
					}()
					t0 := time.Now()
					got, err := axnet.ReadNBytesWithTimeout(a, n, limit)
					took := time.Since(t0)
					switch {
					case early && (err != nil || !bytes.Equal(got, data)):
						c.Violate("all %d bytes are there %v before the timeout of %v but the read gives %d, %v after %v", n, delta, limit, len(got), err, took)
					case !early && err == nil:
						c.Violate("the last bytes come %v after the timeout of %v but the read returns %d bytes after %v", delta, limit, len(got), took)
					case !early && took != limit:
						c.Violate("a timeout of %v took %v", limit, took)
					case !early && !isTimeout(err):
						c.Violate("nothing came within the timeout but the error is %v", err)
					}
					// the next call has its whole timeout again
					if early {
						next := fill(r, 5)
						done2 := make(chan struct{})
						defer func() { a.Close(); <-done2 }()
						go func() {
							defer close(done2)
							time.Sleep(limit - delta)
							b.Write(next)
						}()
						got, err := axnet.ReadNBytesWithTimeout(a, 5, limit)
						if err != nil || !bytes.Equal(got, next) {
							c.Violate("a second read with a timeout of %v fails though its bytes come in time: %v", limit, err)
						}
					}
					c.Events(fmt.Sprint("arrivals early: ", early), 1)
					c.Distinct(limit, early, n, delta)
				})
			}},
			{Name: "no time", N: 200, Fn: func(c *kit.Case) {
				// a timeout of nothing or less does not wait
				r := c.R
				c.Bubble(func() {
					a, b := stdnet.Pipe()
					done := make(chan struct{})
					defer func() { a.Close(); <-done }()
					data := fill(r, 1+r.IntN(50))
					wait := time.Duration(r.IntN(3)) * time.Second
					go func() {
						defer close(done)
						time.Sleep(wait)
						b.Write(data)
						time.Sleep(time.Minute)
						b.Close()
					}()
					limit := -time.Duration(r.IntN(3)) * time.Duration(1+r.IntN(1e9))
					t0 := time.Now()
					got, err := axnet.ReadNBytesWithTimeout(a, len(data), limit)
					if took := time.Since(t0); took != 0 || err == nil && (wait > 0 || !bytes.Equal(got, data)) || err != nil && !isTimeout(err) {
						c.Violate("a read with a timeout of %v takes %v and returns %d bytes and %v, its bytes come after %v", limit, took, len(got), err, wait)
					}
					c.Events("timeouts", 1)
					c.Distinct(limit, len(data), wait)
				})
			}},
			{Name: "no timeout", N: 200, Fn: func(c *kit.Case) {
				// ReadNBytes waits as long as it takes
				r := c.R
				c.Bubble(func() {
					a, b := stdnet.Pipe()
					done := make(chan struct{})
					defer func() { a.Close(); <-done }()
					data := fill(r, 1+r.IntN(200))
					cut := r.IntN(len(data))
					whole := r.IntN(2) == 0
					d1, d2 := time.Duration(r.IntN(1000))*time.Hour, time.Duration(r.IntN(1000))*time.Hour
					go func() {
						defer close(done)
						time.Sleep(d1)
						b.Write(data[:cut])
						time.Sleep(d2)
						if whole {
							b.Write(data[cut:])
							b.Write([]byte("next"))
						}
						b.Close()
					}()
					got, err := axnet.ReadNBytes(a, len(data))
					if whole {
						if err != nil || !bytes.Equal(got, data) {
							c.Violate("%d bytes sent slowly are read as %d, %v", len(data), len(got), err)
						}
						if got, err := axnet.ReadNBytes(a, 4); err != nil || string(got) != "next" {
							c.Violate("what follows is read as %q, %v", got, err)
						}
					} else if err == nil {
						c.Violate("the stream ended after %d of %d bytes but the read returns %d and no error", cut, len(data), len(got))
					}
					c.Events("slow reads", 1)
				})
			}},
			{Name: "other direction", N: 200, Fn: func(c *kit.Case) {
				// a read that times out does not end a write on its way, nor later ones
				r := c.R
				c.Bubble(func() {
					a, b := stdnet.Pipe()
					defer func() { a.Close(); b.Close() }()
					limit := time.Duration(r.IntN(100)) * time.Millisecond
					data := fill(r, 2+r.IntN(60))
					late := limit + time.Duration(1+r.IntN(3000))*time.Millisecond
					before := r.IntN(2) == 0
					done := make(chan error, 1)
					write := func() { _, err := a.Write(data); done <- err }
					if before {
						go write()
						time.Sleep(time.Microsecond)
					}
					if got, err := axnet.ReadNBytesWithTimeout(a, 1+r.IntN(10), limit); err == nil {
						c.Violate("nothing was sent but %d bytes are read", len(got))
					}
					if !before {
						go write()
					}
					time.Sleep(late)
					buf := make([]byte, len(data))
					n, err := b.Read(buf[:1])
					if err == nil && n == 1 {
						n, err = b.Read(buf[1:])
						n++
					}
					if werr := <-done; err != nil || werr != nil || n != len(data) || !bytes.Equal(buf, data) {
						c.Violate("after a read with a timeout of %v a write (begun before: %v) of %d bytes gives %v, %d bytes arrive, %v", limit, before, len(data), werr, n, err)
					}
					c.Events("writes beside reads that timed out", 1)
					c.Distinct(limit, late, before, len(data))
				})
			}},
			{Name: "deadline refused", N: 20, Fn: func(c *kit.Case) {
				// a connection that cannot time out is an error, not a wait for ever
				a, b := stdnet.Pipe()
				a.Close()
				b.Close()
				if got, err := axnet.ReadNBytesWithTimeout(a, 1+c.R.IntN(10), time.Second); err == nil {
					c.Violate("reading from a closed connection returns %d bytes", len(got))
				}
				if got, err := axnet.ReadNBytes(a, 1+c.R.IntN(10)); err == nil {
					c.Violate("reading from a closed connection returns %d bytes", len(got))
				}
				c.Events("closed connections", 1)
			}},
			{Name: "tcp", N: 60, Stress: true, Fn: func(c *kit.Case) {
				// real sockets; two connections at once
				l, err := stdnet.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					c.Inconclusive("no loopback network")
					return
				}
				defer l.Close()
				c.Go(2, func(g int, r *rand.Rand) {
					cl, err := stdnet.Dial("tcp", l.Addr().String())
					if err != nil {
						c.Inconclusive("no loopback network")
						return
					}
					defer cl.Close()
					sv, err := l.Accept()
					if err != nil {
						c.Inconclusive("no loopback network")
						return
					}
					// each side of this pair may be of the other goroutine: the
					// stream of a server side is tagged by what it sends
					seed := r.Uint64()
					go func() {
						x := rand.New(rand.NewPCG(seed, 1))
						var head [8]byte
						binary.LittleEndian.PutUint64(head[:], seed)
						defer sv.Close()
						sv.Write(head[:])
						for range 40 {
							sv.Write(fill(x, x.IntN(300)))
						}
					}()
					head, err := axnet.ReadNBytesWithTimeout(cl, 8, time.Minute)
					if err != nil {
						c.Violate("reading from a socket: %v", err)
					}
					x := rand.New(rand.NewPCG(binary.LittleEndian.Uint64(head), 1))
					for range 40 {
						want := fill(x, x.IntN(300))
						n := r.IntN(len(want) + 1)
						p1, err1 := axnet.ReadNBytesWithTimeout(cl, n, time.Minute)
						p2, err2 := axnet.ReadNBytesWithTimeout(cl, len(want)-n, time.Minute)
						if err1 != nil || err2 != nil || !bytes.Equal(append(p1, p2...), want) {
							c.Violate("%d bytes over a socket in two reads: %v, %v", len(want), err1, err2)
						}
						c.Events("socket reads", 2)
					}
				})
			}},
		},
	})
}
