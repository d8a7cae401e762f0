package kit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"net"

	goerrors "github.com/go-errors/errors"
)

type ptrErr struct{ text string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "an error with nothing in it"
	}
	return e.text
}

type valErr int

func (e valErr) Error() string { return fmt.Sprint("code ", int(e)) }

// AnyErr makes an error: mostly one of its own, now and then one that code
// might take for something else. All are comparable.
func AnyErr(r *rand.Rand, format string, a ...any) error {
	if r.IntN(2) == 0 {
		return fmt.Errorf(format, a...)
	}
	return []func() error{
		func() error { return context.Canceled },
		func() error { return context.DeadlineExceeded },
		func() error { return io.EOF },
		func() error { return io.ErrUnexpectedEOF },
		func() error { return fs.ErrNotExist },
		func() error { return net.ErrClosed },
		func() error { return errors.New("timeout") },
		func() error { return errors.New("not found") },
		func() error { return errors.New("") },
		func() error { return fmt.Errorf(format+": %w", append(a, context.Canceled)...) },
		func() error { return fmt.Errorf(format+": %w", append(a, context.DeadlineExceeded)...) },
		func() error { return errors.Join(fmt.Errorf(format, a...), io.EOF) },
		func() error { return (*ptrErr)(nil) },
		func() error { return &ptrErr{"timeout"} },
		func() error { return valErr(0) },
		func() error { return valErr(r.IntN(5)) },
		func() error { return goerrors.Wrap(fmt.Errorf(format, a...), 0) },
		func() error { return goerrors.Wrap(io.EOF, 0) },
	}[r.IntN(18)]()
}
