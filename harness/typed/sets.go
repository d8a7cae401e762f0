package typed

import (
	"math/rand/v2"

	"github.com/axgrid/axutils/collections"
)

// HashSet is what a HashSet has.
type HashSet interface {
	Add(int)
	Has(int) bool
	HasOrCreate(int) bool
	Delete(int)
	Count() int
	Clear()
	Keys() []int
}

type hashSetOf[K comparable] struct {
	*collections.HashSet[K]
	k Code[K]
}

func (t hashSetOf[K]) Add(k int)              { t.HashSet.Add(t.k.To(k)) }
func (t hashSetOf[K]) Has(k int) bool         { return t.HashSet.Has(t.k.To(k)) }
func (t hashSetOf[K]) HasOrCreate(k int) bool { return t.HashSet.HasOrCreate(t.k.To(k)) }
func (t hashSetOf[K]) Delete(k int)           { t.HashSet.Delete(t.k.To(k)) }
func (t hashSetOf[K]) Keys() []int            { return codes(t.k, t.HashSet.Keys()) }

func codes[K any](k Code[K], ks []K) []int {
	out := make([]int, 0, len(ks))
	for _, x := range ks {
		out = append(out, k.From(x))
	}
	return out
}

func hashSet[K comparable](k Code[K], max int) HashSet {
	b := collections.NewHashSet[K]()
	if max > 0 {
		b.WithMaxCount(max)
	}
	return hashSetOf[K]{b.Build(), k}
}

// NewHashSet returns a HashSet of one type or another.
func NewHashSet(r *rand.Rand, max int) HashSet {
	switch r.IntN(10) {
	case 0:
		return hashSet(Mixed, max)
	case 1:
		return hashSet(String, max)
	case 2:
		return hashSet(Ptr, max)
	case 3:
		return hashSet(Float, max)
	case 4:
		return hashSet(Struct, max)
	}
	b := collections.NewHashSet[int]()
	if max > 0 {
		b.WithMaxCount(max)
	}
	return b.Build()
}

// TwoKeyMap is what a TwoKeyMap has.
type TwoKeyMap interface {
	Put(k1, k2, v int)
	Get(int) (int, bool)
	GetByK2(int) (int, bool)
	Remove(int)
	RemoveByK2(int)
	Len() int
	Keys() []int
	KeysK2() []int
}

type twoKeyOf[A, B comparable, V any] struct {
	*collections.TwoKeyMap[A, B, V]
	a Code[A]
	b Code[B]
	v Code[V]
}

func (t twoKeyOf[A, B, V]) Put(k1, k2, v int) {
	t.TwoKeyMap.Put(t.a.To(k1), t.b.To(k2), t.v.To(v))
}

func (t twoKeyOf[A, B, V]) got(v V, ok bool) (int, bool) {
	if !ok && isZero(v) {
		return 0, false
	}
	return t.v.From(v), ok
}
func (t twoKeyOf[A, B, V]) Get(k int) (int, bool)     { return t.got(t.TwoKeyMap.Get(t.a.To(k))) }
func (t twoKeyOf[A, B, V]) GetByK2(k int) (int, bool) { return t.got(t.TwoKeyMap.GetByK2(t.b.To(k))) }
func (t twoKeyOf[A, B, V]) Remove(k int)              { t.TwoKeyMap.Remove(t.a.To(k)) }
func (t twoKeyOf[A, B, V]) RemoveByK2(k int)          { t.TwoKeyMap.RemoveByK2(t.b.To(k)) }
func (t twoKeyOf[A, B, V]) Keys() []int               { return codes(t.a, t.TwoKeyMap.Keys()) }
func (t twoKeyOf[A, B, V]) KeysK2() []int             { return codes(t.b, t.TwoKeyMap.KeysK2()) }

func twoKey[A, B comparable, V any](a Code[A], b Code[B], v Code[V], zero int) TwoKeyMap {
	return twoKeyOf[A, B, V]{collections.NewTwoKeyMap[A, B, V](), a, b, at(v, zero)}
}

// NewTwoKeyMap returns a TwoKeyMap of one type or another; in some, zero is
// stored as the zero value.
func NewTwoKeyMap(r *rand.Rand, zero int) TwoKeyMap {
	switch r.IntN(14) {
	case 0:
		return twoKey(Mixed, Mixed, Mixed, zero)
	case 1:
		return twoKey(String, Ptr, Ptr, zero)
	case 2:
		return twoKey(Ptr, Float, Err, zero)
	case 3:
		return twoKey(Float, Mixed, Bytes, zero)
	case 4:
		return twoKey(Struct, String, Func, zero)
	case 5:
		return twoKey(Int, Int, Dict, zero)
	case 6:
		return twoKey(Mixed, Struct, Int, zero)
	}
	return collections.NewTwoKeyMap[int, int, int]()
}

// Set is what a Set has; other sets are of the same type.
type Set interface {
	Add(int)
	AddAll(...int)
	Remove(int)
	Has(int) bool
	HasAll(...int) bool
	HasAny(...int) bool
	Values() []int
	All() []int
	Equals(Set) bool
	Clone() Set
	Size() int
	Clear()
}

type setOf[T comparable] struct {
	*collections.Set[T]
	k Code[T]
}

func (t setOf[T]) to(ks []int) (out []T) {
	for _, k := range ks {
		out = append(out, t.k.To(k))
	}
	return
}

func (t setOf[T]) Add(k int)             { t.Set.Add(t.k.To(k)) }
func (t setOf[T]) AddAll(k ...int)       { t.Set.AddAll(t.to(k)...) }
func (t setOf[T]) Remove(k int)          { t.Set.Remove(t.k.To(k)) }
func (t setOf[T]) Has(k int) bool        { return t.Set.Has(t.k.To(k)) }
func (t setOf[T]) HasAll(k ...int) bool  { return t.Set.HasAll(t.to(k)...) }
func (t setOf[T]) HasAny(k ...int) bool  { return t.Set.HasAny(t.to(k)...) }
func (t setOf[T]) Values() []int         { return codes(t.k, t.Set.Values()) }
func (t setOf[T]) All() []int            { return codes(t.k, t.Set.All()) }
func (t setOf[T]) Equals(other Set) bool { return t.Set.Equals(other.(setOf[T]).Set) }
func (t setOf[T]) Clone() Set            { return setOf[T]{t.Set.Clone(), t.k} }

func set[T comparable](k Code[T]) func(...int) Set {
	return func(init ...int) Set {
		return setOf[T]{collections.NewSet(setOf[T]{k: k}.to(init)...), k}
	}
}

// NewSet returns a constructor of Sets of one type or another.
func NewSet(r *rand.Rand) func(...int) Set {
	switch r.IntN(6) {
	case 0:
		return set(Mixed)
	case 1:
		return set(String)
	case 2:
		return set(Ptr)
	case 3:
		return set(Float)
	case 4:
		return set(Struct)
	}
	return set(Int)
}
