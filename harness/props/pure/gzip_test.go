package pure

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand/v2"

	"axverif/kit"

	"github.com/axgrid/axutils/zip"
)

// standard decodes with the standard library: ok only if the whole input is
// intact gzip data.
func standard(in []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(in))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	return out, err == nil
}

func compress(c *kit.Case, d []byte) []byte {
	z, err := zip.GZipData(d)
	if err != nil {
		c.Violate("GZipData of %d bytes: %v", len(d), err)
	}
	return z
}

// damaged judges GUnzipData of something that is not what GZipData returned.
func damaged(c *kit.Case, in, orig []byte, what string) {
	got, err := zip.GUnzipData(in)
	ref, ok := standard(in)
	if err == nil {
		if orig != nil && !bytes.Equal(got, orig) {
			c.Violate("GUnzipData after %s reports success with %d bytes instead of the original %d", what, len(got), len(orig))
		}
		if !ok || !bytes.Equal(got, ref) {
			c.Violate("GUnzipData reports success after %s, which is not intact gzip data", what)
		}
		c.Events("harmless changes", 1)
		return
	}
	c.Events("damages detected", 1)
	c.Distinct(what, len(in))
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C36",
		Rule: "distinct inputs (length, bytes) round-tripped and distinct (damage, position, length) judged",
		Parts: []kit.Part{
			{Name: "round trip", N: 1200, Fn: func(c *kit.Case) {
				r := c.R
				d := content(r, size(r, 200000))
				if len(d) == 0 && r.IntN(2) == 0 {
					d = nil
				}
				w := watch(r, d)
				in := w.get()
				if d == nil {
					in = nil
				}
				z := compress(c, in)
				w.check(c, "GZipData")
				keep := append([]byte(nil), z...)
				// one complete standard stream of exactly d
				br := bytes.NewReader(z)
				gr, err := gzip.NewReader(br)
				if err != nil {
					c.Violate("GZipData of %d bytes is not gzip: %v", len(d), err)
				}
				gr.Multistream(false)
				ref, err := io.ReadAll(gr)
				if err != nil || !bytes.Equal(ref, d) {
					c.Violate("a standard reader gets %d bytes of %d from GZipData's output, %v", len(ref), len(d), err)
				}
				if br.Len() != 0 {
					c.Violate("GZipData's output of %d bytes has %d bytes behind the stream", len(z), br.Len())
				}
				zw := watch(r, z)
				got, err := zip.GUnzipData(zw.get())
				if err != nil || !bytes.Equal(got, d) {
					c.Violate("round trip of %d bytes %s gives %d bytes, %v", len(d), show(d), len(got), err)
				}
				zw.check(c, "GUnzipData")
				// none of the four slices shares memory with another
				was := append([]byte(nil), got...)
				for i := range zw.whole {
					zw.whole[i] ^= 0xff
				}
				for i := range w.whole {
					w.whole[i] ^= 0xff
				}
				if !bytes.Equal(got, was) {
					c.Violate("GUnzipData's result changes with its input")
				}
				if !bytes.Equal(z, keep) {
					c.Violate("GZipData's result changes with its input")
				}
				_ = compress(c, fill(r, 3000))
				_, _ = zip.GUnzipData(compress(c, fill(r, 3000)))
				if !bytes.Equal(got, was) || !bytes.Equal(z, keep) {
					c.Violate("a result changes with a later call")
				}
				c.Events("round trips", 1)
				c.Max("bytes", len(d))
				c.Distinct("data", len(d), show(d))
				c.Sample(func() string {
					return fmt.Sprintf("%d bytes %s <-> %d bytes %s", len(d), show(d), len(keep), show(keep))
				})
			}},
			{Name: "large", N: 8, Fn: func(c *kit.Case) {
				d := content(c.R, 3<<20+c.R.IntN(10))
				if c.Idx == 0 { // mostly empty, and beyond what anyone may take for enough
					d = make([]byte, 72<<20+c.R.IntN(1000))
					for range 200 {
						d[c.R.IntN(len(d))] = byte(c.R.Uint32())
					}
				}
				got, err := zip.GUnzipData(compress(c, d))
				if err != nil || !bytes.Equal(got, d) {
					c.Violate("round trip of %d bytes gives %d bytes, %v", len(d), len(got), err)
				}
				c.Max("bytes", len(d))
				c.Events("round trips", 1)
			}},
			{Name: "other writers", N: 300, Fn: func(c *kit.Case) {
				// gzip data made elsewhere: levels, headers, several members
				r := c.R
				var buf bytes.Buffer
				var all []byte
				for range 1 + r.IntN(3) {
					w, err := gzip.NewWriterLevel(&buf, pick(r, flate.NoCompression, flate.BestSpeed, flate.BestCompression, flate.HuffmanOnly, flate.DefaultCompression))
					must(c, err)
					if r.IntN(2) == 0 {
						w.Name, w.Comment, w.Extra = "name", "comment", []byte("extra")
					}
					d := content(r, size(r, 30000))
					for i := 0; i < len(d); {
						n := min(len(d)-i, 1+r.IntN(10000))
						w.Write(d[i : i+n])
						i += n
						if r.IntN(3) == 0 {
							w.Flush()
						}
					}
					must(c, w.Close())
					all = append(all, d...)
				}
				got, err := zip.GUnzipData(buf.Bytes())
				if err != nil || !bytes.Equal(got, all) {
					c.Violate("standard gzip data of %d bytes gives %d bytes, %v", len(all), len(got), err)
				}
				c.Events("foreign streams", 1)
			}},
			{Name: "exhaustive damage", N: 64, Fn: func(c *kit.Case) {
				d := content(c.R, c.Idx%32)
				z := compress(c, d)
				for n := range len(z) {
					got, err := zip.GUnzipData(z[:n])
					if err == nil {
						c.Violate("GUnzipData accepts %d of %d bytes and gives %d of %d", n, len(z), len(got), len(d))
					}
					damaged(c, z[:n], d, fmt.Sprintf("truncation to %d", n))
				}
				for i := range len(z) * 8 {
					m := append([]byte(nil), z...)
					m[i/8] ^= 1 << (i % 8)
					damaged(c, m, d, fmt.Sprintf("flipping bit %d", i))
				}
				for i := range len(z) {
					damaged(c, append(append([]byte(nil), z[:i]...), z[i+1:]...), d, fmt.Sprintf("losing byte %d", i))
				}
			}},
			{Name: "damage", N: 600, Fn: func(c *kit.Case) {
				r := c.R
				d := content(r, size(r, 20000))
				z := compress(c, d)
				for range 10 {
					m := append([]byte(nil), z...)
					what := ""
					switch r.IntN(6) {
					case 0:
						n := r.IntN(len(m))
						m, what = m[:n], fmt.Sprintf("truncation to %d", n)
					case 1:
						i := r.IntN(len(m) * 8)
						m[i/8] ^= 1 << (i % 8)
						what = fmt.Sprintf("flipping bit %d", i)
					case 2:
						// the checksum and length at the end
						i := r.IntN(min(64, len(m)*8))
						m[len(m)-1-i/8] ^= 1 << (i % 8)
						what = fmt.Sprintf("flipping bit %d from the end", i)
						if got, err := zip.GUnzipData(m); err == nil {
							c.Violate("GUnzipData accepts a wrong checksum or length: %d bytes", len(got))
						}
					case 3:
						i := r.IntN(len(m))
						j := i + r.IntN(len(m)-i)
						copy(m[i:j], fill(r, j-i))
						what = fmt.Sprintf("overwriting %d to %d", i, j)
					case 4:
						m, what = append(m, fill(r, 1+r.IntN(30))...), "extension"
						if _, ok := standard(m); ok {
							continue
						}
					case 5:
						i := r.IntN(len(m))
						m, what = append(append([]byte(nil), m[:i]...), m[i+r.IntN(len(m)-i):]...), fmt.Sprintf("a gap at %d", i)
					}
					if bytes.Equal(m, z) {
						continue
					}
					w := watch(r, m)
					damaged(c, w.get(), d, what)
					w.check(c, "GUnzipData")
				}
			}},
			{Name: "large damage", N: 24, Fn: func(c *kit.Case) {
				// data that stays large when compressed, cut short or with wrong
				// checksums and sizes, or with more behind it
				r := c.R
				d := fill(r, pick(r, 30000, 65536, 66000, 70000+r.IntN(100000), 300000, 1<<20))
				z := compress(c, d)
				for k := range 24 {
					m := append([]byte(nil), z...)
					what := ""
					switch k {
					case 0, 1, 2, 3, 4, 5, 6, 7, 8:
						m, what = m[:len(m)-1-k], fmt.Sprintf("truncation by %d of %d", 1+k, len(m))
					case 9, 10, 11, 12, 13, 14, 15, 16:
						i := 1 + k - 9
						m[len(m)-i] ^= 1 << r.IntN(8)
						what = fmt.Sprintf("damage to byte %d from the end", i)
					case 17: // a size of nothing
						clear(m[len(m)-4:])
						what = "clearing the size"
					case 18:
						clear(m[len(m)-8:])
						what = "clearing checksum and size"
					case 19:
						n := r.IntN(len(m))
						m, what = m[:n], fmt.Sprintf("truncation to %d", n)
					case 20, 21:
						i := r.IntN(len(m))
						m[i] ^= 1 << r.IntN(8)
						what = fmt.Sprintf("damage to byte %d of %d", i, len(m))
					case 22:
						m, what = append(m, fill(r, 1+r.IntN(30))...), "extension"
					case 23:
						// another whole one behind it is more data, unless it is damaged
						y := compress(c, fill(r, 100+r.IntN(100000)))
						y[len(y)-1-r.IntN(8)] ^= 1 << r.IntN(8)
						m, what = append(m, y...), "a damaged second stream"
					}
					damaged(c, m, d, what)
				}
				c.Max("bytes damaged", len(z))
			}},
			{Name: "arbitrary", N: 2000, Fn: func(c *kit.Case) {
				r := c.R
				in := content(r, r.IntN(300))
				switch r.IntN(4) {
				case 0:
					in = append([]byte{0x1f, 0x8b, 8, byte(r.IntN(32))}, in...)
				case 1:
					in = append([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}, in...)
				case 2:
					if r.IntN(10) == 0 {
						in = nil
					}
				}
				damaged(c, in, nil, "arbitrary bytes "+show(in))
			}},
			{Name: "concurrent", N: 80, Stress: true, Fn: func(c *kit.Case) {
				shared := content(c.R, c.R.IntN(3000))
				zs := compress(c, shared)
				n := 2 + c.R.IntN(6)
				type res struct{ d, z, got []byte }
				out := make([][]res, n)
				c.Go(n, func(g int, r *rand.Rand) {
					for i := range 6 {
						d := content(r, r.IntN(2000))
						if i%3 == 2 {
							d = shared
						}
						z := compress(c, d)
						got, err := zip.GUnzipData(z)
						if err != nil {
							c.Violate("with %d goroutines: %v", n, err)
						}
						out[g] = append(out[g], res{d, z, got})
						got, err = zip.GUnzipData(zs)
						if err != nil || !bytes.Equal(got, shared) {
							c.Violate("with %d goroutines unpacking one slice: %d of %d bytes, %v", n, len(got), len(shared), err)
						}
					}
				})
				for _, rs := range out {
					for _, x := range rs {
						ref, ok := standard(x.z)
						if !ok || !bytes.Equal(ref, x.d) || !bytes.Equal(x.got, x.d) {
							c.Violate("%d bytes packed next to %d other goroutines are %d bytes in the end", len(x.d), n-1, len(ref))
						}
						c.Events("concurrent round trips", 1)
					}
				}
			}},
		},
	})
}
