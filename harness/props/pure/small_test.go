package pure

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"

	"axverif/kit"

	"github.com/axgrid/axutils/comparer"
	"github.com/axgrid/axutils/crypto"
	axmath "github.com/axgrid/axutils/math"
)

type left struct {
	id  uint64
	tag int
}

func (l left) GetId() uint64 { return l.id }

type right struct {
	tag string
	id  uint64
}

func (r *right) GetId() uint64 { return r.id }

func anyID(r *rand.Rand, span int) uint64 {
	switch r.IntN(12) {
	case 0:
		return math.MaxUint64 - uint64(r.IntN(2))
	case 1:
		return 1<<32 + uint64(r.IntN(span))
	}
	return uint64(r.IntN(span))
}

func compare(c *kit.Case, r *rand.Rand, nl, nr, span int) {
	var cur []left
	var mod []*right
	for i := range nl {
		cur = append(cur, left{anyID(r, span), i})
	}
	for i := range nr {
		mod = append(mod, &right{fmt.Sprint(i), anyID(r, span)})
	}
	if nl == 0 && r.IntN(2) == 0 {
		cur = []left{}
	}
	curWas := append([]left(nil), cur...)
	modWas := append([]*right(nil), mod...)
	modVal := make([]right, len(mod))
	for i, m := range mod {
		modVal[i] = *m
	}
	// the reference: by comparing each with each
	has := func(id uint64) bool {
		for _, m := range modVal {
			if m.id == id {
				return true
			}
		}
		return false
	}
	had := func(id uint64) bool {
		for _, l := range curWas {
			if l.id == id {
				return true
			}
		}
		return false
	}
	var wantDel, wantMod []left
	var wantNew []*right
	for _, l := range curWas {
		if has(l.id) {
			wantMod = append(wantMod, l)
		} else {
			wantDel = append(wantDel, l)
		}
	}
	for _, m := range modWas {
		if !had(m.id) {
			wantNew = append(wantNew, m)
		}
	}
	del, create, modify := comparer.CompareSlice(cur, mod)
	// appending to one result alters no other, nor the inputs
	_ = append(del, left{id: 1 << 60})
	_ = append(modify, left{id: 1 << 61})
	_ = append(create, &right{id: 1 << 62})
	bad := func(what string, got, want any) {
		c.Violate("CompareSlice(%v, ids %v): %s %v instead of %v", curWas, modVal, what, got, want)
	}
	eq := func(a, b []left) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if !eq(del, wantDel) {
		bad("deletes", del, wantDel)
	}
	if !eq(modify, wantMod) {
		bad("modifies", modify, wantMod)
	}
	same := len(create) == len(wantNew)
	for i := 0; same && i < len(create); i++ {
		same = create[i] == wantNew[i]
	}
	if !same {
		bad("creates", create, wantNew)
	}
	if len(del)+len(modify) != len(cur) {
		bad("keeps", len(del)+len(modify), len(cur))
	}
	// the results are not the inputs
	for i := range del {
		del[i] = left{}
	}
	for i := range modify {
		modify[i] = left{}
	}
	clear(create)
	if !eq(cur, curWas) {
		bad("changes current to", cur, curWas)
	}
	for i := range mod {
		if mod[i] != modWas[i] || *mod[i] != modVal[i] {
			bad("changes mod to", mod, modWas)
		}
	}
	c.Events("elements compared", nl+nr)
	if nl+nr > 0 {
		c.Distinct(fmt.Sprint(curWas), fmt.Sprint(modVal))
	}
}

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func minmax[T ordered](c *kit.Case, name string, mn, mx func(a, b T) T, a, b T) {
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	if g := mn(a, b); g != lo {
		c.Violate("Min%s(%v, %v) = %v", name, a, b, g)
	}
	if g := mx(a, b); g != hi {
		c.Violate("Max%s(%v, %v) = %v", name, a, b, g)
	}
}

func anyInt(r *rand.Rand) int64 {
	x := int64(bits(r))
	switch r.IntN(8) {
	case 0:
		return pick(r, int64(0), 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64+1, math.MaxInt32, math.MinInt32, math.MaxUint32)
	case 1:
		return -x
	}
	return x
}

func anyFloat(r *rand.Rand) float64 {
	switch r.IntN(4) {
	case 0:
		return pick(r, 0, 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, 1<<53, 1<<53+2)
	case 1:
		for {
			if f := math.Float64frombits(r.Uint64()); !math.IsNaN(f) {
				return f
			}
		}
	}
	return r.NormFloat64()
}

func pointMove(c *kit.Case, v, s int) {
	x := big.NewInt(int64(v))
	switch {
	case s > 0:
		if v != 0 && s > 40 {
			return
		}
		e := s
		if v == 0 {
			e = 1
		}
		x.Mul(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil))
		if !x.IsInt64() {
			return // does not fit: not specified
		}
	case s < 0:
		x.Quo(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(min(-s, 60))), nil))
	}
	if g := axmath.IntPointMove(v, s); int64(g) != x.Int64() {
		c.Violate("IntPointMove(%d, %d) = %d instead of %v", v, s, g, x)
	}
	c.Events("point moves", 1)
	c.Distinct("move", v, s)
}

// rfc1321 is MD5 written after the RFC, nothing shared with crypto/md5.
func rfc1321(in []byte) [16]byte {
	shift := [64]uint{}
	for i, row := range [4][4]uint{{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}} {
		for j := range 16 {
			shift[16*i+j] = row[j%4]
		}
	}
	msg := append(append([]byte(nil), in...), 0x80)
	for len(msg)%64 != 56 {
		msg = append(msg, 0)
	}
	n := uint64(len(in)) * 8
	for i := range 8 {
		msg = append(msg, byte(n>>(8*i)))
	}
	h := [4]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}
	for ; len(msg) > 0; msg = msg[64:] {
		var x [16]uint32
		for i := range 64 {
			x[i/4] |= uint32(msg[i]) << (8 * (i % 4))
		}
		a, b, cc, d := h[0], h[1], h[2], h[3]
		for i := range 64 {
			var f uint32
			var g int
			switch i / 16 {
			case 0:
				f, g = b&cc|^b&d, i
			case 1:
				f, g = d&b|^d&cc, (5*i+1)%16
			case 2:
				f, g = b^cc^d, (3*i+5)%16
			case 3:
				f, g = cc^(b|^d), 7*i%16
			}
			k := uint32(uint64(math.Floor(math.Abs(math.Sin(float64(i+1))) * (1 << 32))))
			f += a + k + x[g]
			a, d, cc = d, cc, b
			b += f<<shift[i] | f>>(32-shift[i])
		}
		h[0], h[1], h[2], h[3] = h[0]+a, h[1]+b, h[2]+cc, h[3]+d
	}
	var out [16]byte
	for i := range 16 {
		out[i] = byte(h[i/4] >> (8 * (i % 4)))
	}
	return out
}

func md5Both(c *kit.Case, s string, want [16]byte) {
	hex := string(hexOf(want[:]))
	if g := crypto.GetMD5Hash(s); g != hex {
		c.Violate("GetMD5Hash of %d bytes %s = %q instead of %q", len(s), show([]byte(s)), g, hex)
	}
	if g := crypto.GetMD5HashBytes(s); !bytes.Equal(g, want[:]) {
		c.Violate("GetMD5HashBytes of %d bytes %s = %x instead of %s", len(s), show([]byte(s)), g, hex)
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C39",
		Rule: "distinct pairs of slices whose partition was compared with the reference",
		Parts: []kit.Part{
			{Name: "random", N: 20000, Fn: func(c *kit.Case) {
				r := c.R
				compare(c, r, r.IntN(pick(r, 1, 4, 12, 40)), r.IntN(pick(r, 1, 4, 12, 40)), pick(r, 1, 2, 6, 30, 1000))
			}},
			{Name: "large", N: 40, Fn: func(c *kit.Case) {
				r := c.R
				compare(c, r, 200+r.IntN(400), 200+r.IntN(400), pick(r, 50, 500, 5000))
			}},
			{Name: "lopsided", N: 120, Fn: func(c *kit.Case) {
				// one side empty or short, the other of any length
				r := c.R
				many, few := r.IntN(pick(r, 20, 200, 3000)), r.IntN(pick(r, 1, 1, 3))
				if r.IntN(2) == 0 {
					many, few = few, many
				}
				compare(c, r, many, few, pick(r, 1, 5, 1000, 1<<40))
			}},
			{Name: "exhaustive", N: 31, Factor: 1, Fn: func(c *kit.Case) {
				// every pair of slices of up to three (four) ids out of three
				k := c.Idx
				lens := []int{0, 1, 3, 9, 27}
				n, off := 0, 0
				for off+lens[0] >= 0 && n < 4 {
					w := 1
					for range n {
						w *= 3
					}
					if k < off+w {
						break
					}
					off += w
					n++
				}
				if n > 3 {
					return
				}
				code := k - off
				var cur []left
				for i := range n {
					cur = append(cur, left{uint64(code % 3), i})
					code /= 3
				}
				for m := range 5 {
					w := 1
					for range m {
						w *= 3
					}
					for x := range w {
						var mod []*right
						for i, y := 0, x; i < m; i, y = i+1, y/3 {
							mod = append(mod, &right{fmt.Sprint(i), uint64(y % 3)})
						}
						del, create, modify := comparer.CompareSlice(cur, mod)
						i, j := 0, 0
						for _, l := range cur {
							in := false
							for _, q := range mod {
								in = in || q.id == l.id
							}
							if in {
								if j >= len(modify) || modify[j] != l {
									c.Violate("CompareSlice(%v, code %d of %d): modifies %v", cur, x, m, modify)
								}
								j++
							} else {
								if i >= len(del) || del[i] != l {
									c.Violate("CompareSlice(%v, code %d of %d): deletes %v", cur, x, m, del)
								}
								i++
							}
						}
						k := 0
						for _, q := range mod {
							in := false
							for _, l := range cur {
								in = in || q.id == l.id
							}
							if !in {
								if k >= len(create) || create[k] != q {
									c.Violate("CompareSlice(%v, code %d of %d): creates %d", cur, x, m, len(create))
								}
								k++
							}
						}
						if i != len(del) || j != len(modify) || k != len(create) {
							c.Violate("CompareSlice(%v, code %d of %d): %d deleted, %d created, %d modified instead of %d, %d, %d",
								cur, x, m, len(del), len(create), len(modify), i, k, j)
						}
						c.Events("small pairs, all of them", 1)
						c.Distinct("small", c.Idx, m, x)
					}
				}
			}},
			{Name: "concurrent", N: 60, Stress: true, Fn: func(c *kit.Case) {
				var cur []left
				var mod []*right
				for i := range 20 {
					cur = append(cur, left{uint64(i), i})
					mod = append(mod, &right{"", uint64(i + 10)})
				}
				c.Go(4, func(g int, r *rand.Rand) {
					for range 10 {
						d, n, m := comparer.CompareSlice(cur, mod)
						if len(d) != 10 || len(n) != 10 || len(m) != 10 {
							c.Violate("comparing shared slices gives %d, %d, %d elements", len(d), len(n), len(m))
						}
						clear(d)
						clear(n)
						clear(m)
						compare(c, r, r.IntN(8), r.IntN(8), 5)
					}
				})
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C40",
		Rule: "distinct argument pairs; all 8-bit pairs are covered",
		Parts: []kit.Part{
			{Name: "8 bit, all pairs", N: 16, Factor: 1, Fn: func(c *kit.Case) {
				for a := c.Idx * 16; a < c.Idx*16+16; a++ {
					for b := range 256 {
						minmax(c, "8", axmath.Min8, axmath.Max8, int8(a), int8(b))
						minmax(c, "UInt8", axmath.MinUInt8, axmath.MaxUInt8, uint8(a), uint8(b))
						// the same patterns at the top and at the bottom of the wider types
						minmax(c, "16", axmath.Min16, axmath.Max16, int16(int8(a))<<8, int16(int8(b))<<8|3)
						minmax(c, "UInt16", axmath.MinUInt16, axmath.MaxUInt16, uint16(a)<<8|5, uint16(b)<<8)
						minmax(c, "32", axmath.Min32, axmath.Max32, int32(int8(a))<<24, int32(int8(b))<<24|7)
						minmax(c, "UInt32", axmath.MinUInt32, axmath.MaxUInt32, uint32(a)<<24, uint32(b)<<24|7)
						minmax(c, "64", axmath.Min64, axmath.Max64, int64(int8(a))<<56, int64(int8(b))<<56|9)
						minmax(c, "UInt64", axmath.MinUInt64, axmath.MaxUInt64, uint64(a)<<56, uint64(b)<<56|9)
						minmax(c, "", axmath.Min, axmath.Max, int(int8(a))<<56, int(int8(b))<<56|9)
						minmax(c, "UInt", axmath.MinUInt, axmath.MaxUInt, uint(a)<<56, uint(b)<<56|9)
						c.Distinct("pair", a, b)
					}
				}
				c.Events("argument pairs", 16*256*10)
			}},
			{Name: "random", N: 4000, Fn: func(c *kit.Case) {
				r := c.R
				for range 20 {
					a, b := anyInt(r), anyInt(r)
					switch r.IntN(5) {
					case 0:
						b = a
					case 1:
						b = a + int64(r.IntN(3)) - 1
					case 2: // equal in the low or in the high half
						b = a ^ int64(r.Uint64()>>32)
					case 3:
						b = a ^ int64(r.Uint64()<<32)
					}
					minmax(c, "", axmath.Min, axmath.Max, int(a), int(b))
					minmax(c, "64", axmath.Min64, axmath.Max64, a, b)
					minmax(c, "32", axmath.Min32, axmath.Max32, int32(a), int32(b))
					minmax(c, "16", axmath.Min16, axmath.Max16, int16(a), int16(b))
					minmax(c, "8", axmath.Min8, axmath.Max8, int8(a), int8(b))
					minmax(c, "UInt", axmath.MinUInt, axmath.MaxUInt, uint(a), uint(b))
					minmax(c, "UInt64", axmath.MinUInt64, axmath.MaxUInt64, uint64(a), uint64(b))
					minmax(c, "UInt32", axmath.MinUInt32, axmath.MaxUInt32, uint32(a), uint32(b))
					minmax(c, "UInt16", axmath.MinUInt16, axmath.MaxUInt16, uint16(a), uint16(b))
					minmax(c, "UInt8", axmath.MinUInt8, axmath.MaxUInt8, uint8(a), uint8(b))
					f, g := anyFloat(r), anyFloat(r)
					switch r.IntN(4) {
					case 0:
						g = f
					case 1:
						g = math.Nextafter(f, pick(r, math.Inf(1), math.Inf(-1)))
					}
					minmax(c, "Float64", axmath.MinFloat64, axmath.MaxFloat64, f, g)
					f32, g32 := float32(f), float32(g)
					if r.IntN(4) == 0 {
						g32 = math.Nextafter32(f32, float32(pick(r, math.Inf(1), math.Inf(-1))))
					}
					minmax(c, "Float32", axmath.MinFloat32, axmath.MaxFloat32, f32, g32)
					c.Events("argument pairs", 12)
					c.Distinct("ints", a, b)
				}
				c.Sample(func() string { return "random pairs of all types" })
			}},
			{Name: "16 bit, edges", N: 16, Factor: 1, Fn: func(c *kit.Case) {
				for k := range 1 << 12 {
					a := c.Idx<<12 | k
					for _, b := range []int{0, 1, a, a + 1, a - 1, a ^ 0x8000, a ^ 0xff, a ^ 0xff00, 0x7fff, 0x8000, 0xffff} {
						minmax(c, "16", axmath.Min16, axmath.Max16, int16(a), int16(b))
						minmax(c, "UInt16", axmath.MinUInt16, axmath.MaxUInt16, uint16(a), uint16(b))
					}
				}
				c.Events("argument pairs", 2*11<<12)
			}},
			{Name: "point", N: 2000, Fn: func(c *kit.Case) {
				r := c.R
				for range 20 {
					v := int(anyInt(r))
					if r.IntN(2) == 0 {
						v = int(anyInt(r) >> r.IntN(64))
					}
					pointMove(c, v, r.IntN(44)-22)
				}
			}},
			{Name: "point edges", N: 41, Factor: 1, Fn: func(c *kit.Case) {
				s := c.Idx - 20
				p := 1
				for i := 0; i < 19; i++ {
					for _, v := range []int{p, p - 1, p + 1, 5 * p, 9 * p, math.MaxInt64 / p, math.MaxInt64/p + 1} {
						pointMove(c, v, s)
						pointMove(c, -v, s)
					}
					if p <= math.MaxInt64/10 {
						p *= 10
					}
				}
				for _, v := range []int{0, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
					pointMove(c, v, s)
				}
				pointMove(c, int(anyInt(c.R)), -1000)
				pointMove(c, 0, 1000)
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C41",
		Rule: "distinct strings hashed and compared with an independent implementation",
		Parts: []kit.Part{
			{Name: "vectors", N: 8, Fn: func(c *kit.Case) {
				for s, want := range map[string]string{
					"":                           "d41d8cd98f00b204e9800998ecf8427e",
					"a":                          "0cc175b9c0f1b6a831c399e269772661",
					"abc":                        "900150983cd24fb0d6963f7d28e17f72",
					"message digest":             "f96b697d7cb7938d525a2f31aaf161d0",
					"abcdefghijklmnopqrstuvwxyz": "c3fcd3d76192e4007dfb496cca67e13b",
					"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789":                   "d174ab98d277d9f5a5611c2c9f419d9f",
					"12345678901234567890123456789012345678901234567890123456789012345678901234567890": "57edf4a22be3c955ac49da2e2107b67a",
				} {
					ref := rfc1321([]byte(s))
					if string(hexOf(ref[:])) != want {
						c.Fatal("the reference is wrong for %q", s)
					}
					md5Both(c, s, ref)
					c.Events("RFC vectors", 1)
				}
			}},
			{Name: "lengths", N: 260, Fn: func(c *kit.Case) {
				// every length around the block size
				s := content(c.R, c.Idx)
				md5Both(c, string(s), rfc1321(s))
				z := make([]byte, c.Idx)
				md5Both(c, string(z), rfc1321(z))
				c.Events("strings", 2)
				c.Distinct(string(s))
			}},
			{Name: "random", N: 3000, Fn: func(c *kit.Case) {
				s := content(c.R, size(c.R, 20000))
				md5Both(c, string(s), rfc1321(s))
				// results belong to the caller
				b := crypto.GetMD5HashBytes(string(s))
				if len(b) > 0 {
					b[0] ^= 0xff
				}
				md5Both(c, string(s), rfc1321(s))
				c.Events("strings", 1)
				c.Max("bytes", len(s))
				c.Distinct(string(s))
				c.Sample(func() string { return show(s) + " -> " + crypto.GetMD5Hash(string(s)) })
			}},
			{Name: "large", N: 8, Fn: func(c *kit.Case) {
				s := content(c.R, 2<<20+c.R.IntN(100))
				md5Both(c, string(s), rfc1321(s))
				c.Max("bytes", len(s))
			}},
			{Name: "concurrent", N: 120, Stress: true, Fn: func(c *kit.Case) {
				n := 2 + c.R.IntN(6)
				type one struct {
					s    string
					hex  string
					data []byte
				}
				out := make([][]one, n)
				c.Go(n, func(g int, r *rand.Rand) {
					for range 15 {
						s := string(content(r, r.IntN(200)))
						out[g] = append(out[g], one{s, crypto.GetMD5Hash(s), crypto.GetMD5HashBytes(s)})
					}
				})
				for _, l := range out {
					for _, x := range l {
						want := rfc1321([]byte(x.s))
						if x.hex != string(hexOf(want[:])) || !bytes.Equal(x.data, want[:]) {
							c.Violate("with %d goroutines %s hashes to %s and %x", n, show([]byte(x.s)), x.hex, x.data)
						}
						c.Events("concurrent strings", 1)
					}
				}
			}},
		},
	})
}
