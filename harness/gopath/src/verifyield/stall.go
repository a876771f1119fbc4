package verifyield

import (
	"sync"
	"sync/atomic"
	"time"
)

// Besides random yields, the goroutine that gets to a chosen preemption point
// can be held there until the others have got on.

var (
	points  atomic.Int64 // preemption points passed since Stall
	target  atomic.Int64
	mu      sync.Mutex
	release chan struct{}
	after   int // progress needed to release
	held    bool
	atPoint chan struct{} // closed when the goroutine is held
)

// Limit is how long a goroutine is held at most: it may hold a lock that the
// others need.
var Limit = 1500 * time.Microsecond

// Stall arms: the goroutine passing the k-th preemption point from now is held
// until Progress was called n times.
func Stall(k int64, n int) {
	mu.Lock()
	release = make(chan struct{})
	after = n
	held = false
	atPoint = make(chan struct{})
	mu.Unlock()
	points.Store(0)
	target.Store(k)
}

// Held returns a channel that is closed when a goroutine is held.
func Held() chan struct{} {
	mu.Lock()
	defer mu.Unlock()
	return atPoint
}

// Unstall disarms and returns the number of preemption points passed.
func Unstall() int64 {
	target.Store(0)
	mu.Lock()
	if release != nil {
		close(release)
		release = nil
	}
	mu.Unlock()
	return points.Load()
}

// Progress tells that some operation has been completed.
func Progress() {
	if target.Load() == 0 {
		return
	}
	mu.Lock()
	if held && release != nil {
		if after--; after <= 0 {
			close(release)
			release = nil
		}
	}
	mu.Unlock()
}

func stall() {
	if target.Load() == 0 {
		return
	}
	if points.Add(1) != target.Load() {
		return
	}
	mu.Lock()
	c := release
	held = true
	close(atPoint)
	mu.Unlock()
	if c == nil {
		return
	}
	t := time.NewTimer(Limit)
	select {
	case <-c:
	case <-t.C:
	}
	t.Stop()
}
