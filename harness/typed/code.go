// Package typed gives workloads that speak of ints containers of other types:
// keys and values go through one-to-one codes, in which the zero value of the
// type (a nil interface, pointer, slice or function, "") is a value like others.
package typed

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sync"
)

// A Code turns ints into T and back; 0 is the zero value of T.
type Code[T any] struct {
	Name string
	To   func(int) T
	From func(T) int
}

type Cell struct{ n int }

// cells are made beforehand: a table with a lock would order what the code
// under test has to order.
var cells = func() (out [8192]*Cell) {
	for i := range out {
		out[i] = &Cell{i}
	}
	return
}()

var more sync.Map

func cell(n int) *Cell {
	switch {
	case n == 0:
		return nil
	case n > 0 && n < len(cells):
		return cells[n]
	}
	c, _ := more.LoadOrStore(n, &Cell{n})
	return c.(*Cell)
}

func uncell(c *Cell) int {
	if c == nil {
		return 0
	}
	return c.n
}

type Wide struct {
	A int32
	B string
	C [2]int8
}

// errors are compared by content, so that they may be made twice
type anError struct{ n int }

func (e anError) Error() string { return "" }

type text string

var none *Cell

// mixed makes interface values of many types.
func mixed(n int) any {
	if n == 0 {
		return nil
	}
	switch n % 9 {
	case 0:
		return n
	case 1:
		return fmt.Sprint(n)
	case 2:
		return text(fmt.Sprint(n))
	case 3:
		return cell(n)
	case 4:
		return Wide{A: int32(n)}
	case 5:
		if n == 5 {
			return none // an interface that holds a nil pointer
		}
		return float64(n) / 2
	case 6:
		return [2]int{n, 0}
	case 7:
		return int64(n) << 20
	}
	return anError{n}
}

func unmixed(v any) int {
	n := 0
	switch x := v.(type) {
	case nil:
	case int:
		n = x
	case string:
		fmt.Sscan(x, &n)
	case text:
		fmt.Sscan(string(x), &n)
	case *Cell:
		if n = uncell(x); n == 0 {
			n = 5
		}
	case Wide:
		n = int(x.A)
	case float64:
		n = int(x * 2)
	case [2]int:
		n = x[0]
	case int64:
		n = int(x >> 20)
	case anError:
		n = x.n
	default:
		n = math.MinInt
	}
	return n
}

var (
	Int    = Code[int]{"int", func(n int) int { return n }, func(n int) int { return n }}
	Mixed  = Code[any]{"any", mixed, unmixed}
	Ptr    = Code[*Cell]{"*T", cell, uncell}
	String = Code[string]{"string", func(n int) string {
		if n == 0 {
			return ""
		}
		return fmt.Sprint(n)
	}, func(s string) (n int) { fmt.Sscan(s, &n); return }}
	Float  = Code[float64]{"float64", func(n int) float64 { return float64(n) / 4 }, func(f float64) int { return int(f * 4) }}
	Struct = Code[Wide]{"struct", func(n int) Wide {
		w := Wide{A: int32(n / 2), C: [2]int8{0, int8(n % 2)}}
		if n != 0 {
			w.B = "x"
		}
		return w
	}, func(w Wide) int { return int(w.A)*2 + int(w.C[1]) }}
	// the rest cannot be keys
	Err = Code[error]{"error", func(n int) error {
		switch {
		case n == 0:
			return nil
		case n%2 == 0:
			return anError{n}
		}
		return fmt.Errorf("with %w", anError{n})
	}, func(err error) int {
		var e anError
		errors.As(err, &e)
		return e.n
	}}
	Bytes = Code[[]byte]{"[]byte", func(n int) []byte {
		switch n {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
		return []byte(fmt.Sprint(n))
	}, func(b []byte) (n int) {
		switch {
		case b == nil:
			return 0
		case len(b) == 0:
			return 1
		}
		fmt.Sscan(string(b), &n)
		return
	}}
	Func = Code[func() int]{"func", func(n int) func() int {
		if n == 0 {
			return nil
		}
		return func() int { return n }
	}, func(f func() int) int {
		if f == nil {
			return 0
		}
		return f()
	}}
	// Block is a big value.
	Block = Code[[600]int16]{"[600]int16", func(n int) (b [600]int16) {
		for i := range b {
			b[i] = int16(n)
		}
		return
	}, func(b [600]int16) int {
		for i := range b {
			if b[i] != b[0] {
				return math.MinInt
			}
		}
		return int(b[0])
	}}
	Dict = Code[map[int]int]{"map", func(n int) map[int]int {
		if n == 0 {
			return nil
		}
		return map[int]int{0: n}
	}, func(m map[int]int) int { return m[0] }}
)

// at moves the zero value to n: n becomes it, 0 something else.
func at[T any](c Code[T], n int) Code[T] {
	swap := func(i int) int {
		switch i {
		case 0:
			return n
		case n:
			return 0
		}
		return i
	}
	return Code[T]{c.Name, func(i int) T { return c.To(swap(i)) }, func(v T) int { return swap(c.From(v)) }}
}

func isZero[T any](v T) bool { return reflect.ValueOf(&v).Elem().IsZero() }
