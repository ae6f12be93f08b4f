//go:build go1.21

package monotime

import (
	"msim/rt"
	"time"
)

// Now is the machine's monotonic clock.
func Now() uint64 {
	n := rt.CurNode()
	if n == nil {
		return 1
	}
	rt.Y()
	return uint64(n.Mono())
}

func Since(s uint64) time.Duration { return time.Duration(Now() - s) }
