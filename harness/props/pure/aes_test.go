package pure

import (
	"bufio"
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"

	"axverif/kit"

	"github.com/axgrid/axutils/crypto"
)

func anyKey(r *rand.Rand) []byte {
	k := fill(r, pick(r, 16, 24, 32))
	switch r.IntN(6) {
	case 0: // weak keys are keys
		clear(k)
	case 1:
		for i := range k {
			k[i] = "0123456789abcdef"[i%16]
		}
	}
	return k
}

// seen holds the beginning of every ciphertext of the process.
var seen = struct {
	sync.Mutex
	m map[[12]byte]struct{}
}{m: map[[12]byte]struct{}{}}

func fresh(c *kit.Case, ct []byte) {
	if len(ct) < 12 {
		c.Violate("a ciphertext of %d bytes cannot hold a nonce", len(ct))
	}
	var n [12]byte
	copy(n[:], ct)
	seen.Lock()
	_, dup := seen.m[n]
	seen.m[n] = struct{}{}
	seen.Unlock()
	if dup {
		c.Violate("two encryptions share the nonce %x", n)
	}
}

func hides(c *kit.Case, ct, pt []byte) {
	if len(pt) < 8 {
		return
	}
	if bytes.Contains(ct, pt) {
		c.Violate("the ciphertext of %d bytes contains the plaintext of %d bytes", len(ct), len(pt))
	}
	// nor any longer stretch of it
	for i := 0; i+16 <= len(pt); i += 16 + len(pt)/8 {
		if bytes.Contains(ct, pt[i:i+16]) {
			c.Violate("the ciphertext contains bytes %d to %d of the plaintext", i, i+16)
		}
	}
}

func encrypt(c *kit.Case, a *crypto.AES, pt []byte) []byte {
	ct, err := a.Encrypt(pt)
	if err != nil {
		c.Violate("Encrypt of %d bytes with a valid key: %v", len(pt), err)
	}
	return ct
}

// own decrypts and encrypts with the standard library alone.
func gcm(c *kit.Case, key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		c.Fatal("%v", err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		c.Fatal("%v", err)
	}
	return g
}

// rejects checks that an input Decrypt must not accept gives an error and no data.
func rejects(c *kit.Case, a *crypto.AES, in []byte, what string) {
	got, err := a.Decrypt(in)
	if err == nil {
		c.Violate("Decrypt accepts %s: %s gives %d bytes", what, show(in), len(got))
	}
	if len(got) != 0 {
		c.Violate("Decrypt rejects %s but returns %d bytes with the error", what, len(got))
	}
	c.Events("rejected: "+strings.SplitN(what, " ", 2)[0], 1)
}

func init() {
	if os.Getenv("PURE_CHILD") == "encrypt" {
		// a separate process encrypting with the key all of them use
		a := crypto.NewAES([]byte("0123456789abcdef"))
		for range 50 {
			ct, err := a.Encrypt([]byte("the same message"))
			fmt.Printf("CT %x %v\n", ct, err)
		}
		os.Exit(0)
	}
	kit.Register(&kit.Prop{
		ID:   "C31",
		Rule: "distinct (key size, plaintext) pairs whose round trip was judged",
		Parts: []kit.Part{
			{Name: "round trip", N: 6000, Fn: func(c *kit.Case) {
				r := c.R
				kw := watch(r, anyKey(r))
				pw := watch(r, content(r, size(r, 1<<16)))
				a := crypto.NewAES(kw.get())
				pt := pw.get()
				if len(pt) == 0 && r.IntN(2) == 0 {
					pt = nil
				}
				ct := encrypt(c, a, pt)
				pw.check(c, "Encrypt")
				fresh(c, ct)
				hides(c, ct, pt)
				keep := append([]byte(nil), ct...)
				cw := watch(r, ct)
				b := a
				if r.IntN(2) == 0 {
					b = crypto.NewAES(append([]byte(nil), kw.get()...))
				}
				for i := range 2 {
					got, err := b.Decrypt(cw.get())
					if err != nil {
						c.Violate("Decrypt of an own ciphertext of %d bytes (key of %d bytes), time %d: %v", len(ct), kw.n, i, err)
					}
					if !bytes.Equal(got, pt) {
						c.Violate("%d bytes became %d others: %s -> %s", len(pt), len(got), show(pt), show(got))
					}
					cw.check(c, "Decrypt")
					for j := range got {
						got[j] ^= 0xff // the result is the caller's
					}
					cw.check(c, "writing to Decrypt's result")
				}
				if !bytes.Equal(ct, keep) {
					c.Violate("a ciphertext changed after it was returned")
				}
				for j := range ct {
					ct[j] ^= 0xff
				}
				pw.check(c, "writing to Encrypt's result")
				kw.check(c, "Encrypt or Decrypt")
				c.Events("round trips", 1)
				c.Distinct(kw.n, len(pt), show(pt))
				c.Sample(func() string {
					return fmt.Sprintf("key %x, %d bytes %s -> %d bytes %s", kw.get(), len(pt), show(pt), len(keep), show(keep))
				})
			}},
			{Name: "large", N: 16, Fn: func(c *kit.Case) {
				r := c.R
				a := crypto.NewAES(anyKey(r))
				n := pick(r, 1<<20, 1<<20+1, 3<<20, 4<<20-1, 8<<20, 16<<20+5, 100000, 1<<17)
				pw := watch(r, fill(r, n))
				ct := encrypt(c, a, pw.get())
				fresh(c, ct)
				pw.check(c, "Encrypt")
				got, err := a.Decrypt(ct)
				if err != nil || !bytes.Equal(got, pw.get()) {
					c.Violate("%d bytes became %d others, %v", n, len(got), err)
				}
				c.Max("largest message", n)
				c.Distinct("large", n, len(ct))
			}},
			{Name: "kept", N: 300, Fn: func(c *kit.Case) {
				// what was returned stays as it was, whatever is called then
				r := c.R
				a, b := crypto.NewAES(anyKey(r)), crypto.NewAES(anyKey(r))
				var cts, pts kept
				for range 4 + r.IntN(12) {
					pt := content(r, pick(r, r.IntN(40), r.IntN(2000), 990+r.IntN(60), 4060+r.IntN(60), 20000+r.IntN(50000)))
					x := pick(r, a, b)
					ct := encrypt(c, x, pt)
					fresh(c, ct)
					cts.add(ct)
					for range r.IntN(3) {
						got, err := x.Decrypt(ct)
						if err != nil || !bytes.Equal(got, pt) {
							c.Violate("%d bytes became %d others, %v", len(pt), len(got), err)
						}
						pts.add(got)
					}
				}
				cts.check(c, "a ciphertext")
				pts.check(c, "a plaintext")
				c.Distinct("kept", len(cts.got), len(pts.got), c.Seed)
			}},
			{Name: "nonces", N: 1600, Fn: func(c *kit.Case) {
				// the same message and key over and over, from several values
				key, pt := anyKey(c.R), content(c.R, c.R.IntN(20))
				vals := []*crypto.AES{crypto.NewAES(key), crypto.NewAES(append([]byte(nil), key...))}
				for i := range 100 {
					fresh(c, encrypt(c, vals[i%len(vals)], pt))
				}
				c.Events("encryptions", 100)
			}},
			{Name: "many nonces", N: 8, Fn: func(c *kit.Case) {
				// one value used so often that a short counter comes round
				a, pt := crypto.NewAES(anyKey(c.R)), content(c.R, c.R.IntN(20))
				n := 300 + c.R.IntN(5000)
				if c.R.IntN(2) == 0 {
					n = 66000
				}
				for range n {
					ct, err := a.Encrypt(pt)
					if err != nil {
						c.Violate("Encrypt: %v", err)
					}
					fresh(c, ct)
				}
				c.Events("encryptions", n)
				c.Max("encryptions by one value", n)
			}},
			{Name: "birthdays", N: 1, Factor: 4, Fn: func(c *kit.Case) {
				// so many encryptions that nonces drawn from too few soon meet
				const n, each = 8, 150000
				key, pt := anyKey(c.R), content(c.R, c.R.IntN(20))
				all := make([][][12]byte, n)
				one := crypto.NewAES(key)
				c.Go(n, func(g int, r *rand.Rand) {
					a := one
					if g%2 == 0 {
						a = crypto.NewAES(append([]byte(nil), key...))
					}
					for range each {
						ct, err := a.Encrypt(pt)
						if err != nil || len(ct) < 12 {
							c.Violate("Encrypt: %d bytes, %v", len(ct), err)
						}
						all[g] = append(all[g], [12]byte(ct))
						c.Tick()
					}
				})
				nonces := slices.Concat(all...)
				slices.SortFunc(nonces, func(a, b [12]byte) int { return bytes.Compare(a[:], b[:]) })
				for i := range nonces[1:] {
					if nonces[i] == nonces[i+1] {
						c.Violate("of %d encryptions two share the nonce %x", len(nonces), nonces[i])
					}
				}
				c.Events("encryptions", len(nonces))
				c.Max("nonces compared at once", len(nonces))
				c.Distinct(key)
			}},
			{Name: "processes", N: 8, Fn: func(c *kit.Case) {
				all := map[string]bool{}
				for range 3 {
					cmd := exec.Command(os.Args[0])
					cmd.Env = append(os.Environ(), "PURE_CHILD=encrypt")
					out, err := cmd.Output()
					if err != nil {
						c.Fatal("child: %v", err)
					}
					sc := bufio.NewScanner(bytes.NewReader(out))
					n := 0
					for sc.Scan() {
						f := strings.Fields(sc.Text())
						if len(f) != 3 || f[0] != "CT" {
							continue
						}
						ct, err := hex.DecodeString(f[1])
						if err != nil || f[2] != "<nil>" {
							c.Violate("a separate process failed to encrypt: %s", sc.Text())
						}
						fresh(c, ct)
						if all[string(ct)] {
							c.Violate("two processes made the same ciphertext %s", f[1])
						}
						all[string(ct)] = true
						n++
					}
					if n != 50 {
						c.Fatal("child printed %d lines", n)
					}
					c.Events("encryptions of separate processes", n)
				}
			}},
			{Name: "bad keys", N: 300, Fn: func(c *kit.Case) {
				n := c.Idx % 150
				if n == 16 || n == 24 || n == 32 {
					return
				}
				key := fill(c.R, n)
				if n == 0 && c.R.IntN(2) == 0 {
					key = nil
				}
				a := crypto.NewAES(key)
				for _, l := range []int{0, 1, 12, 28, 100} {
					in := fill(c.R, l)
					if got, err := a.Encrypt(in); err == nil {
						c.Violate("Encrypt with a key of %d bytes returns %d bytes and no error", n, len(got))
					}
					if got, err := a.Decrypt(in); err == nil {
						c.Violate("Decrypt with a key of %d bytes returns %d bytes and no error", n, len(got))
					}
				}
				good := encrypt(c, crypto.NewAES(fill(c.R, 16)), fill(c.R, 20))
				if _, err := a.Decrypt(good); err == nil {
					c.Violate("Decrypt with a key of %d bytes gives no error", n)
				}
				c.Events("bad keys", 1)
				c.Distinct("bad key", n)
			}},
			{Name: "concurrent", N: 240, Stress: true, Fn: func(c *kit.Case) {
				key := anyKey(c.R)
				a := crypto.NewAES(key)
				shared := content(c.R, c.R.IntN(300))
				sharedCT := encrypt(c, a, shared)
				n := 2 + c.R.IntN(6)
				cts := make([][][]byte, n)
				c.Go(n, func(g int, r *rand.Rand) {
					for i := range 12 {
						pt := content(r, r.IntN(200))
						if i%4 == 3 {
							pt = shared
						}
						ct := encrypt(c, a, pt)
						got, err := a.Decrypt(ct)
						if err != nil || !bytes.Equal(got, pt) {
							c.Violate("with %d goroutines using one AES value %s became %s, %v", n, show(pt), show(got), err)
						}
						got, err = a.Decrypt(sharedCT)
						if err != nil || !bytes.Equal(got, shared) {
							c.Violate("with %d goroutines decrypting one ciphertext: %v", n, err)
						}
						cts[g] = append(cts[g], ct)
					}
				})
				for _, l := range cts {
					for _, ct := range l {
						fresh(c, ct)
					}
				}
				c.Events("concurrent round trips", 12*n)
			}},
			{Name: "first use", N: 800, Stress: true, Fn: func(c *kit.Case) {
				// a new value whose first uses come at the same time
				key := anyKey(c.R)
				a := crypto.NewAES(key)
				pt := content(c.R, c.R.IntN(100))
				ct := encrypt(c, crypto.NewAES(key), pt)
				n := 2 + c.R.IntN(4)
				what := c.R.IntN(3)
				cts := make([][]byte, n)
				c.Go(n, func(g int, r *rand.Rand) {
					if what != 0 {
						cts[g] = encrypt(c, a, pt)
					}
					if what != 1 {
						if got, err := a.Decrypt(ct); err != nil || !bytes.Equal(got, pt) {
							c.Violate("%d goroutines use a new AES value first: %s became %s, %v", n, show(pt), show(got), err)
						}
					}
				})
				for _, ct := range cts {
					if ct == nil {
						continue
					}
					fresh(c, ct)
					if got, err := a.Decrypt(ct); err != nil || !bytes.Equal(got, pt) {
						c.Violate("encrypted as one of the first %d uses of a new AES value: %s became %s, %v", n, show(pt), show(got), err)
					}
				}
				c.Events("first uses at the same time", n)
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C32",
		Rule: "distinct (kind of damage, position, ciphertext length) Decrypt was seen to reject",
		Parts: []kit.Part{
			{Name: "exhaustive", N: 200, Fn: func(c *kit.Case) {
				// every truncation, every flipped bit, every moved block of a short ciphertext
				r := c.R
				key := anyKey(r)
				a := crypto.NewAES(key)
				pt := content(r, c.Idx%50)
				ct := encrypt(c, a, pt)
				for n := range len(ct) {
					rejects(c, a, ct[:n], fmt.Sprintf("truncation to %d of %d bytes", n, len(ct)))
					rejects(c, a, append([]byte(nil), ct[:n]...), fmt.Sprintf("truncation to %d of %d bytes", n, len(ct)))
					rejects(c, a, ct[len(ct)-n:], fmt.Sprintf("truncation to the last %d of %d bytes", n, len(ct)))
					c.Distinct("cut", n, len(ct))
				}
				for i := range len(ct) * 8 {
					m := append([]byte(nil), ct...)
					m[i/8] ^= 1 << (i % 8)
					rejects(c, a, m, fmt.Sprintf("flip of bit %d of byte %d of %d", i%8, i/8, len(ct)))
					c.Distinct("flip", i, len(ct))
				}
				for i := range len(ct) {
					m := append(append([]byte(nil), ct[:i]...), ct[i+1:]...)
					rejects(c, a, m, fmt.Sprintf("removal of byte %d of %d", i, len(ct)))
				}
				for i := range len(ct) + 1 {
					m := append(append(append([]byte(nil), ct[:i]...), byte(r.Uint32())), ct[i:]...)
					rejects(c, a, m, fmt.Sprintf("insertion at %d of %d", i, len(ct)))
				}
				if got, err := a.Decrypt(ct); err != nil || !bytes.Equal(got, pt) {
					c.Violate("the intact ciphertext no longer decrypts: %v", err)
				}
				c.Sample(func() string { return fmt.Sprintf("all damages of %s", show(ct)) })
			}},
			{Name: "damage", N: 3000, Fn: func(c *kit.Case) {
				r := c.R
				key := anyKey(r)
				a := crypto.NewAES(key)
				pt := content(r, size(r, 20000))
				ct := encrypt(c, a, pt)
				for range 20 {
					m := append([]byte(nil), ct...)
					what := ""
					switch r.IntN(9) {
					case 0:
						n := r.IntN(len(ct))
						m, what = m[:n], fmt.Sprintf("truncation to %d of %d", n, len(ct))
					case 1:
						m, what = append(m, fill(r, 1+r.IntN(40))...), "extension"
					case 2:
						m, what = append(m, 0), "extension with a zero"
					case 3:
						i := r.IntN(len(m) * 8)
						m[i/8] ^= 1 << (i % 8)
						what = fmt.Sprintf("flip of bit %d of %d bytes", i, len(m))
					case 4: // many changes
						for range 1 + r.IntN(8) {
							m[r.IntN(len(m))] ^= byte(1 + r.IntN(255))
						}
						what = "changes"
					case 5:
						i, j := r.IntN(len(m)), r.IntN(len(m))
						m[i], m[j] = m[j], m[i]
						what = "swap"
					case 6:
						if len(m) >= 32 {
							i, j := r.IntN(len(m)/16), r.IntN(len(m)/16)
							t := append([]byte(nil), m[i*16:i*16+16]...)
							copy(m[i*16:], m[j*16:j*16+16])
							copy(m[j*16:], t)
						}
						what = "blocks swapped"
					case 7: // spliced with another ciphertext of the same key
						o := encrypt(c, a, content(r, len(pt)))
						i := r.IntN(min(len(m), len(o)) + 1)
						m = append(append([]byte(nil), m[:i]...), o[i:]...)
						if bytes.Equal(m, o) {
							continue
						}
						what = fmt.Sprintf("splice at %d", i)
					case 8:
						m, what = append(m, m...), "doubling"
					}
					if bytes.Equal(m, ct) {
						continue
					}
					w := watch(r, m)
					rejects(c, a, w.get(), what)
					w.check(c, "Decrypt")
					c.Distinct(what, len(ct))
				}
			}},
			{Name: "large", N: 10, Fn: func(c *kit.Case) {
				r := c.R
				a := crypto.NewAES(anyKey(r))
				n := pick(r, 1<<17, 1<<20, 1<<20+1, 3<<20)
				ct := encrypt(c, a, fill(r, n))
				for range 12 {
					i := pick(r, r.IntN(len(ct)), r.IntN(40), len(ct)-1-r.IntN(40), len(ct)/2)
					d := byte(1 + r.IntN(255))
					ct[i] ^= d
					rejects(c, a, ct, fmt.Sprintf("changes of byte %d of %d", i, len(ct)))
					ct[i] ^= d
					rejects(c, a, ct[:i], fmt.Sprintf("truncation to %d of %d", i, len(ct)))
				}
				c.Distinct("large", n)
			}},
			{Name: "other keys", N: 3000, Fn: func(c *kit.Case) {
				r := c.R
				key := anyKey(r)
				ct := encrypt(c, crypto.NewAES(key), content(r, size(r, 3000)))
				k2 := append([]byte(nil), key...)
				how := ""
				switch r.IntN(7) {
				case 6: // of no length a key can have
					if r.IntN(3) == 0 {
						k2 = k2[:r.IntN(len(k2))]
					} else {
						k2 = append(k2, fill(r, 1+r.IntN(20))...)
					}
					how = fmt.Sprintf("key of %d bytes that begin as those of the key of %d", len(k2), len(key))
				case 0:
					i := r.IntN(len(k2) * 8)
					k2[i/8] ^= 1 << (i % 8)
					how = fmt.Sprintf("key differing in bit %d", i)
				case 1:
					k2, how = fill(r, len(key)), "random key"
				case 2: // the same bytes, longer or shorter
					switch len(k2) {
					case 16:
						k2 = append(k2, k2...)
					case 24:
						k2 = k2[:16]
					case 32:
						k2 = k2[:pick(r, 16, 24)]
					}
					how = fmt.Sprintf("key of %d instead of %d bytes", len(k2), len(key))
				case 3:
					for len(k2) < 32 {
						k2 = append(k2, make([]byte, 8)...)
						if r.IntN(2) == 0 {
							break
						}
					}
					how = fmt.Sprintf("key padded from %d to %d bytes", len(key), len(k2))
				case 4:
					clear(k2)
					how = "zero key"
				case 5:
					for i, j := 0, len(k2)-1; i < j; i, j = i+1, j-1 {
						k2[i], k2[j] = k2[j], k2[i]
					}
					how = "reversed key"
				}
				if bytes.Equal(k2, key) {
					return
				}
				rejects(c, crypto.NewAES(k2), ct, how)
				c.Distinct(how, len(ct))
			}},
			{Name: "arbitrary", N: 2400, Fn: func(c *kit.Case) {
				r := c.R
				a := crypto.NewAES(anyKey(r))
				n := c.Idx % 300
				in := content(r, n)
				if n == 0 && r.IntN(2) == 0 {
					in = nil
				}
				rejects(c, a, in, fmt.Sprintf("arbitrary %d bytes", n))
				rejects(c, a, make([]byte, n), fmt.Sprintf("zeros, %d of them", n))
				if n >= 0 { // a plaintext is no ciphertext
					ct := encrypt(c, a, in)
					inner, err := a.Decrypt(ct)
					if err != nil || !bytes.Equal(inner, in) {
						c.Violate("round trip: %v", err)
					}
					rejects(c, a, inner, "plaintext taken for ciphertext")
				}
				c.Distinct("arbitrary", n)
			}},
			{Name: "unauthentic", N: 400, Fn: func(c *kit.Case) {
				// well-formed but sealed otherwise: additional data, shorter tag, other mode
				r := c.R
				key := anyKey(r)
				a := crypto.NewAES(key)
				pt := content(r, r.IntN(200))
				nonce := fill(r, 12)
				b, err := aes.NewCipher(key)
				if err != nil {
					c.Fatal("%v", err)
				}
				stream := append([]byte(nil), nonce...)
				ctr := cipher.NewCTR(b, append(append([]byte(nil), nonce...), 0, 0, 0, 2))
				x := make([]byte, len(pt))
				ctr.XORKeyStream(x, pt)
				stream = append(stream, x...)
				rejects(c, a, stream, "encrypted but without tag")
				rejects(c, a, append(stream, make([]byte, 16)...), "encrypted with a zero tag")
				rejects(c, a, gcm(c, key).Seal(append([]byte(nil), nonce...), nonce, pt, []byte("x")), "sealed with additional data")
				short, err := cipher.NewGCMWithTagSize(b, 12)
				if err != nil {
					c.Fatal("%v", err)
				}
				rejects(c, a, short.Seal(append([]byte(nil), nonce...), nonce, pt, nil), "sealed with a short tag")
				c.Distinct("unauthentic", len(pt))
			}},
			{Name: "concurrent", N: 120, Stress: true, Fn: func(c *kit.Case) {
				key := anyKey(c.R)
				a, pt := crypto.NewAES(key), content(c.R, c.R.IntN(100))
				ct := encrypt(c, crypto.NewAES(key), pt) // nothing has used a yet
				c.Go(2+c.R.IntN(6), func(g int, r *rand.Rand) {
					for range 10 {
						m := append([]byte(nil), ct...)
						m[r.IntN(len(m))] ^= byte(1 + r.IntN(255))
						if got, err := a.Decrypt(m); err == nil || len(got) != 0 {
							c.Violate("a damaged ciphertext was accepted while others decrypt: %d bytes, %v", len(got), err)
						}
						if got, err := a.Decrypt(ct); err != nil || !bytes.Equal(got, pt) {
							c.Violate("an intact ciphertext was rejected while others decrypt: %v", err)
						}
					}
				})
				c.Events("concurrent rejections", 20)
			}},
		},
	})
}
