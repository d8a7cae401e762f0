package kit

import (
	"context"
	"errors"
	"math/rand/v2"
	"sync"
	"time"
)

type ctxKey struct{}

// hand is a context of no kind the standard library knows.
type hand struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
	how  error
}

func (h *hand) Done() <-chan struct{}       { return h.done }
func (h *hand) Deadline() (time.Time, bool) { return time.Time{}, false }

func (h *hand) Err() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.err
}

func (h *hand) cancel() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.err == nil {
		h.err = h.how
		close(h.done)
	}
}

// Ctx makes a context and what cancels it: mostly the usual one, now and then
// one that ends by way of its parent, with a cause, or is of the caller's making.
func Ctx(r *rand.Rand, parent context.Context) (context.Context, context.CancelFunc) {
	switch r.IntN(10) {
	case 0:
		p, cancel := context.WithCancel(parent)
		ctx, _ := context.WithCancel(context.WithValue(p, ctxKey{}, 1))
		return ctx, cancel
	case 1:
		ctx, cancel := context.WithCancelCause(parent)
		return ctx, func() { cancel(errors.New("some cause")) }
	case 2:
		return context.WithTimeout(parent, 200*365*24*time.Hour)
	case 3:
		h := &hand{Context: parent, done: make(chan struct{}), how: context.Canceled}
		return h, h.cancel
	case 4:
		h := &hand{Context: parent, done: make(chan struct{}), how: context.DeadlineExceeded}
		return h, h.cancel
	}
	return context.WithCancel(parent)
}
