// Package verifyield perturbs goroutine schedules. The overlay made by
// yieldgen calls P before every statement of the code under test.
package verifyield

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var level atomic.Int32

// Set sets the intensity: 0 off; otherwise about one call in n yields.
func Set(n int) { level.Store(int32(n)) }

// P is a possible preemption point.
func P() {
	stall()
	n := level.Load()
	if n == 0 {
		return
	}
	r := rand.Uint32()
	if r%uint32(n) != 0 {
		return
	}
	switch (r >> 16) % 8 {
	case 0, 1, 2:
		runtime.Gosched()
	case 3, 4, 5:
		for i := uint32(0); i < (r>>20)%64; i++ {
			runtime.Gosched()
		}
	case 6:
		time.Sleep(time.Microsecond)
	case 7:
		t := time.Now()
		for time.Since(t) < time.Duration(r>>20)*20*time.Nanosecond {
		}
	}
}
