package kit

import "sync/atomic"

// Raise sets m to n if it is smaller.
func Raise(m *atomic.Int32, n int32) {
	for k := m.Load(); n > k && !m.CompareAndSwap(k, n); k = m.Load() {
	}
}
