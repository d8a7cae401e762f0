package typed

import (
	"context"
	"math/rand/v2"
	"time"

	"github.com/axgrid/axutils/collections"
)

// Map is what SimpleMap and ShardMap have.
type Map interface {
	collections.Map[int, int]
}

type mapOf[K comparable, V any] struct {
	m interface {
		collections.Map[K, V]
	}
	k Code[K]
	v Code[V]
}

func (t mapOf[K, V]) got(v V, ok bool) (int, bool) {
	if !ok && isZero(v) {
		return 0, false
	}
	return t.v.From(v), ok
}

func (t mapOf[K, V]) Get(k int) (int, bool)        { return t.got(t.m.Get(t.k.To(k))) }
func (t mapOf[K, V]) Set(k, v int)                 { t.m.Set(t.k.To(k), t.v.To(v)) }
func (t mapOf[K, V]) Delete(k int)                 { t.m.Delete(t.k.To(k)) }
func (t mapOf[K, V]) Has(k int) bool               { return t.m.Has(t.k.To(k)) }
func (t mapOf[K, V]) SetIfNotExists(k, v int) bool { return t.m.SetIfNotExists(t.k.To(k), t.v.To(v)) }
func (t mapOf[K, V]) Size() int                    { return t.m.Size() }
func (t mapOf[K, V]) SetIfNotExistsWithFunc(k int, f func() int) (int, bool) {
	v, ok := t.m.SetIfNotExistsWithFunc(t.k.To(k), func() V { return t.v.To(f()) })
	return t.v.From(v), ok
}
func (t mapOf[K, V]) Clear() { t.m.(interface{ Clear() }).Clear() }

func simple[K comparable, V any](k Code[K], v Code[V], zero int) Map {
	return mapOf[K, V]{collections.NewSimpleMap[K, V](), k, at(v, zero)}
}

// SimpleMap returns a SimpleMap of one type or another; in some, zero is stored
// as the zero value.
func SimpleMap(r *rand.Rand, zero int) Map {
	switch r.IntN(12) {
	case 0:
		return simple(Mixed, Mixed, zero)
	case 1:
		return simple(String, Ptr, zero)
	case 2:
		return simple(Ptr, Err, zero)
	case 3:
		return simple(Float, Bytes, zero)
	case 4:
		return simple(Struct, Func, zero)
	case 5:
		return simple(Int, Dict, zero)
	}
	return collections.NewSimpleMap[int, int]()
}

func shard[K comparable, V any](k Code[K], v Code[V], zero, n int, f func(int) int) Map {
	return mapOf[K, V]{collections.NewShardMap[K, V]().WithShardsCount(n).WithShardsFunc(func(x K) int { return f(k.From(x)) }).Build(), k, at(v, zero)}
}

// ShardMap is a ShardMap likewise.
func ShardMap(r *rand.Rand, zero, n int, f func(int) int) Map {
	switch r.IntN(12) {
	case 0:
		return shard(Mixed, Mixed, zero, n, f)
	case 1:
		return shard(String, Ptr, zero, n, f)
	case 2:
		return shard(Ptr, Err, zero, n, f)
	case 3:
		return shard(Float, Bytes, zero, n, f)
	case 4:
		return shard(Struct, Func, zero, n, f)
	case 5:
		return shard(Int, Dict, zero, n, f)
	}
	return collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(f).Build()
}

// GuavaMap is what a GuavaMap has.
type GuavaMap interface {
	Has(int) bool
	HasOrCreate(int, int) bool
	LockForUpdate(int, func() int) int
	Delete(int)
	Clear()
	Size() int
	Get(int) (int, error)
	GetStored() map[int]int
	Set(int, int)
}

type guavaOf[K comparable, V any] struct {
	m *collections.GuavaMap[K, V]
	k Code[K]
	v Code[V]
}

func (t guavaOf[K, V]) Has(k int) bool            { return t.m.Has(t.k.To(k)) }
func (t guavaOf[K, V]) HasOrCreate(k, v int) bool { return t.m.HasOrCreate(t.k.To(k), t.v.To(v)) }
func (t guavaOf[K, V]) LockForUpdate(k int, f func() int) int {
	return t.v.From(t.m.LockForUpdate(t.k.To(k), func() V { return t.v.To(f()) }))
}
func (t guavaOf[K, V]) Delete(k int) { t.m.Delete(t.k.To(k)) }
func (t guavaOf[K, V]) Clear()       { t.m.Clear() }
func (t guavaOf[K, V]) Size() int    { return t.m.Size() }
func (t guavaOf[K, V]) Get(k int) (int, error) {
	v, err := t.m.Get(t.k.To(k))
	return t.v.From(v), err
}
func (t guavaOf[K, V]) Set(k, v int) { t.m.Set(t.k.To(k), t.v.To(v)) }
func (t guavaOf[K, V]) GetStored() map[int]int {
	out := map[int]int{}
	for k, v := range t.m.GetStored() {
		out[t.k.From(k)] = t.v.From(v)
	}
	return out
}

// GuavaBuilder is a builder that makes up its mind when it builds.
type GuavaBuilder struct {
	r           *rand.Rand
	ctx         context.Context
	load        func(int) (int, error)
	unload      func(int, int)
	lock        bool
	max         int
	write, read time.Duration
}

func NewGuavaMap(r *rand.Rand) *GuavaBuilder { return &GuavaBuilder{r: r} }

func (b *GuavaBuilder) WithContext(ctx context.Context) *GuavaBuilder { b.ctx = ctx; return b }
func (b *GuavaBuilder) WithLockLoad(l bool) *GuavaBuilder             { b.lock = l; return b }
func (b *GuavaBuilder) WithLoadFunc(f func(int) (int, error)) *GuavaBuilder {
	b.load = f
	return b
}
func (b *GuavaBuilder) WithMaxCount(n int) *GuavaBuilder               { b.max = n; return b }
func (b *GuavaBuilder) WithUnloadFunc(f func(int, int)) *GuavaBuilder  { b.unload = f; return b }
func (b *GuavaBuilder) WithWriteTimeout(d time.Duration) *GuavaBuilder { b.write = d; return b }
func (b *GuavaBuilder) WithReadTimeout(d time.Duration) *GuavaBuilder  { b.read = d; return b }

func guava[K comparable, V any](b *GuavaBuilder, k Code[K], v Code[V]) GuavaMap {
	g := collections.NewGuavaMap[K, V]()
	if b.ctx != nil {
		g.WithContext(b.ctx)
	}
	if b.load != nil {
		g.WithLoadFunc(func(key K) (V, error) {
			x, err := b.load(k.From(key))
			return v.To(x), err
		})
	}
	if b.unload != nil {
		g.WithUnloadFunc(func(key K, val V) { b.unload(k.From(key), v.From(val)) })
	}
	return guavaOf[K, V]{g.WithLockLoad(b.lock).WithMaxCount(b.max).WithWriteTimeout(b.write).WithReadTimeout(b.read).Build(), k, v}
}

func (b *GuavaBuilder) Build() GuavaMap {
	switch b.r.IntN(12) {
	case 0:
		return guava(b, Mixed, Mixed)
	case 1:
		return guava(b, String, Ptr)
	case 2:
		return guava(b, Ptr, Err)
	case 3:
		return guava(b, Float, Bytes)
	case 4:
		return guava(b, Struct, Func)
	case 5:
		return guava(b, Int, Dict)
	}
	g := collections.NewGuavaMap[int, int]()
	if b.ctx != nil {
		g.WithContext(b.ctx)
	}
	if b.load != nil {
		g.WithLoadFunc(b.load)
	}
	if b.unload != nil {
		g.WithUnloadFunc(b.unload)
	}
	return g.WithLockLoad(b.lock).WithMaxCount(b.max).WithWriteTimeout(b.write).WithReadTimeout(b.read).Build()
}
