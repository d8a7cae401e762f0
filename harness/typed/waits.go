package typed

import (
	"context"
	"math/rand/v2"
	"time"

	"github.com/axgrid/axutils/collections"
	"github.com/rs/zerolog"
)

// WaitMap is what a WaitMap has.
type WaitMap interface {
	Wait(int) int
	Set(int, int)
	Count() int
}

type waitOf[K comparable, V any] struct {
	m *collections.WaitMap[K, V]
	k Code[K]
	v Code[V]
}

func (t waitOf[K, V]) Wait(k int) int { return t.v.From(t.m.Wait(t.k.To(k))) }
func (t waitOf[K, V]) Set(k, v int)   { t.m.Set(t.k.To(k), t.v.To(v)) }
func (t waitOf[K, V]) Count() int     { return t.m.Count() }

// WaitMapBuilder builds a WaitMap of one type or another.
type WaitMapBuilder struct {
	r   *rand.Rand
	ctx context.Context
	req *time.Duration
	ttl *time.Duration
}

func NewWaitMap(r *rand.Rand) *WaitMapBuilder                                { return &WaitMapBuilder{r: r} }
func (b *WaitMapBuilder) WithContext(ctx context.Context) *WaitMapBuilder    { b.ctx = ctx; return b }
func (b *WaitMapBuilder) WithRequestTimeout(d time.Duration) *WaitMapBuilder { b.req = &d; return b }
func (b *WaitMapBuilder) WithResponseTtl(d time.Duration) *WaitMapBuilder    { b.ttl = &d; return b }

func waitMap[K comparable, V any](b *WaitMapBuilder) *collections.WaitMap[K, V] {
	w := collections.NewWaitMap[K, V]()
	if b.ctx != nil {
		w.WithContext(b.ctx)
	}
	if b.req != nil {
		w.WithRequestTimeout(*b.req)
	}
	if b.ttl != nil {
		w.WithResponseTtl(*b.ttl)
	}
	return w.Build()
}

func (b *WaitMapBuilder) Build() WaitMap {
	switch b.r.IntN(12) {
	case 0:
		return waitOf[any, any]{waitMap[any, any](b), Mixed, Mixed}
	case 1:
		return waitOf[string, *Cell]{waitMap[string, *Cell](b), String, Ptr}
	case 2:
		return waitOf[*Cell, error]{waitMap[*Cell, error](b), Ptr, Err}
	case 3:
		return waitOf[float64, []byte]{waitMap[float64, []byte](b), Float, Bytes}
	case 4:
		return waitOf[Wide, func() int]{waitMap[Wide, func() int](b), Struct, Func}
	}
	return waitMap[int, int](b)
}

// ResponseMap is what a ResponseMap has.
type ResponseMap interface {
	Wait(int) int
	Set(int, int)
}

type respOf[K comparable, V any] struct {
	m *collections.ResponseMap[K, V]
	k Code[K]
	v Code[V]
}

func (t respOf[K, V]) Wait(k int) int { return t.v.From(t.m.Wait(t.k.To(k))) }
func (t respOf[K, V]) Set(k, v int)   { t.m.Set(t.k.To(k), t.v.To(v)) }

// ResponseMapBuilder builds a ResponseMap of one type or another.
type ResponseMapBuilder struct {
	r     *rand.Rand
	ctx   context.Context
	resp  *time.Duration
	clear *time.Duration
}

func NewResponseMap(r *rand.Rand, ctx context.Context) *ResponseMapBuilder {
	return &ResponseMapBuilder{r: r, ctx: ctx}
}
func (b *ResponseMapBuilder) WithResponseTimeout(d time.Duration) *ResponseMapBuilder {
	b.resp = &d
	return b
}
func (b *ResponseMapBuilder) WithClearTimeout(d time.Duration) *ResponseMapBuilder {
	b.clear = &d
	return b
}

func responseMap[K comparable, V any](b *ResponseMapBuilder) *collections.ResponseMap[K, V] {
	m := collections.NewResponseMap[K, V](b.ctx)
	if b.resp != nil {
		m.WithResponseTimeout(*b.resp)
	}
	if b.clear != nil {
		m.WithClearTimeout(*b.clear)
	}
	if b.r.IntN(4) == 0 {
		m.WithLogger(zerolog.Nop())
	}
	return m.Build()
}

func (b *ResponseMapBuilder) Build() ResponseMap {
	switch b.r.IntN(12) {
	case 0:
		return respOf[any, any]{responseMap[any, any](b), Mixed, Mixed}
	case 1:
		return respOf[string, *Cell]{responseMap[string, *Cell](b), String, Ptr}
	case 2:
		return respOf[*Cell, error]{responseMap[*Cell, error](b), Ptr, Err}
	case 3:
		return respOf[float64, []byte]{responseMap[float64, []byte](b), Float, Bytes}
	case 4:
		return respOf[Wide, func() int]{responseMap[Wide, func() int](b), Struct, Func}
	}
	return responseMap[int, int](b)
}

// HolderMap is what a HolderMap has.
type HolderMap interface {
	Get(int) (int, error)
	Count() int
	Wait(int, int) error
	Update(int, int) error
	Release(int) error
	Error(int, error) error
}

type holderOf[K comparable, V any] struct {
	m *collections.HolderMap[K, V]
	k Code[K]
	v Code[V]
}

func (t holderOf[K, V]) Get(k int) (int, error) {
	v, err := t.m.Get(t.k.To(k))
	return t.v.From(v), err
}
func (t holderOf[K, V]) Count() int                   { return t.m.Count() }
func (t holderOf[K, V]) Wait(k, v int) error          { return t.m.Wait(t.k.To(k), t.v.To(v)) }
func (t holderOf[K, V]) Update(k, v int) error        { return t.m.Update(t.k.To(k), t.v.To(v)) }
func (t holderOf[K, V]) Release(k int) error          { return t.m.Release(t.k.To(k)) }
func (t holderOf[K, V]) Error(k int, err error) error { return t.m.Error(t.k.To(k), err) }

// HolderMapBuilder builds a HolderMap of one type or another.
type HolderMapBuilder struct {
	r       *rand.Rand
	ctx     context.Context
	timeout *time.Duration
	ttl     *time.Duration
}

func NewHolderMap(r *rand.Rand) *HolderMapBuilder                             { return &HolderMapBuilder{r: r} }
func (b *HolderMapBuilder) WithContext(ctx context.Context) *HolderMapBuilder { b.ctx = ctx; return b }
func (b *HolderMapBuilder) WithTimeout(d time.Duration) *HolderMapBuilder     { b.timeout = &d; return b }
func (b *HolderMapBuilder) WithTTL(d time.Duration) *HolderMapBuilder         { b.ttl = &d; return b }

func holderMap[K comparable, V any](b *HolderMapBuilder) *collections.HolderMap[K, V] {
	m := collections.NewHolderMap[K, V]()
	if b.ctx != nil {
		m.WithContext(b.ctx)
	}
	if b.timeout != nil {
		m.WithTimeout(*b.timeout)
	}
	if b.ttl != nil {
		m.WithTTL(*b.ttl)
	}
	return m.Build()
}

func (b *HolderMapBuilder) Build() HolderMap {
	switch b.r.IntN(12) {
	case 0:
		return holderOf[any, any]{holderMap[any, any](b), Mixed, Mixed}
	case 1:
		return holderOf[string, *Cell]{holderMap[string, *Cell](b), String, Ptr}
	case 2:
		return holderOf[*Cell, error]{holderMap[*Cell, error](b), Ptr, Err}
	case 3:
		return holderOf[float64, []byte]{holderMap[float64, []byte](b), Float, Bytes}
	case 4:
		return holderOf[Wide, func() int]{holderMap[Wide, func() int](b), Struct, Func}
	}
	return holderMap[int, int](b)
}

// RequestMap is what a RequestMap has.
type RequestMap interface {
	GetOrCreate(int, func(int) int) int
	GetOrCreateWithErr(int, func(int) (int, error)) (int, error)
	Timeout(time.Duration, func(int) (int, error)) func(int) (int, error)
	Count() int
}

type requestOf[K comparable, V any] struct {
	m *collections.RequestMap[K, V]
	k Code[K]
	v Code[V]
}

func (t requestOf[K, V]) GetOrCreate(k int, f func(int) int) int {
	return t.v.From(t.m.GetOrCreate(t.k.To(k), func(x K) V { return t.v.To(f(t.k.From(x))) }))
}

func (t requestOf[K, V]) fn(f func(int) (int, error)) func(K) (V, error) {
	return func(x K) (V, error) {
		v, err := f(t.k.From(x))
		return t.v.To(v), err
	}
}

func (t requestOf[K, V]) GetOrCreateWithErr(k int, f func(int) (int, error)) (int, error) {
	v, err := t.m.GetOrCreateWithErr(t.k.To(k), t.fn(f))
	return t.v.From(v), err
}

func (t requestOf[K, V]) Timeout(d time.Duration, f func(int) (int, error)) func(int) (int, error) {
	g := t.m.Timeout(d, t.fn(f))
	return func(k int) (int, error) {
		v, err := g(t.k.To(k))
		return t.v.From(v), err
	}
}

func (t requestOf[K, V]) Count() int { return t.m.Count() }

type Initial = collections.RequestMapInitializer[int, int]

func requestMap[K comparable, V any](k Code[K], v Code[V], ctx context.Context, ttl time.Duration, init []*Initial) RequestMap {
	var is []*collections.RequestMapInitializer[K, V]
	for _, i := range init {
		is = append(is, &collections.RequestMapInitializer[K, V]{Key: k.To(i.Key), Result: v.To(i.Result), Err: i.Err})
	}
	return requestOf[K, V]{collections.NewRequestMap(ctx, ttl, is...), k, v}
}

// NewRequestMap makes a RequestMap of one type or another.
func NewRequestMap(r *rand.Rand, ctx context.Context, ttl time.Duration, init ...*Initial) RequestMap {
	switch r.IntN(12) {
	case 0:
		return requestMap(Mixed, Mixed, ctx, ttl, init)
	case 1:
		return requestMap(String, Ptr, ctx, ttl, init)
	case 2:
		return requestMap(Ptr, Err, ctx, ttl, init)
	case 3:
		return requestMap(Float, Bytes, ctx, ttl, init)
	case 4:
		return requestMap(Struct, Func, ctx, ttl, init)
	}
	return collections.NewRequestMap[int, int](ctx, ttl, init...)
}
