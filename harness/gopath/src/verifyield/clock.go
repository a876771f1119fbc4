package verifyield

import (
	"context"
	"time"
)

// A clock that runs fast. The overlay made by yieldgen -clock makes the code
// under test use it, so that what would happen after minutes happens at once.

const speed = 100

var t0 = time.Now()

func Now() time.Time                  { return t0.Round(0).Add(time.Since(t0) * speed) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { time.Sleep(scaled(d)) }

func After(d time.Duration) <-chan time.Time { return time.After(scaled(d)) }
func Tick(d time.Duration) <-chan time.Time  { return time.Tick(scaled(d)) }
func NewTimer(d time.Duration) *time.Timer   { return time.NewTimer(scaled(d)) }
func NewTicker(d time.Duration) *time.Ticker { return time.NewTicker(scaled(d)) }
func AfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(scaled(d), f)
}
func WithTimeout(c context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(c, scaled(d))
}

func scaled(d time.Duration) time.Duration {
	if d <= 0 {
		return d
	}
	if d /= speed; d == 0 {
		d = 1
	}
	return d
}
