package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"runtime"

	"verifyield"
)

// rec is one recorded operation: name, arguments and (after it ran) results.
type rec map[string]interface{}

// yieldSched chooses how schedules are perturbed: random yields, or one
// goroutine held at one point while others complete some operations.
type yieldSched struct {
	points int64 // seen in a typical history
	held   bool
}

func (y *yieldSched) arm(rng *rand.Rand) {
	y.held = false
	if rng.Intn(4) == 0 || y.points == 0 {
		verifyield.Set(1 + rng.Intn(8))
		if y.points == 0 {
			verifyield.Stall(1<<60, 1)
			y.held = true
		}
		return
	}
	y.held = true
	if rng.Intn(3) == 0 {
		verifyield.Set(4 + rng.Intn(16))
	} else {
		verifyield.Set(0)
	}
	verifyield.Stall(1+rng.Int63n(y.points), 1+rng.Intn(4))
}

func (y *yieldSched) disarm() {
	verifyield.Set(0)
	if y.held {
		n := verifyield.Unstall()
		y.points = (3*y.points + n + 3) / 4
	}
}

// preempt runs t1 up to its k-th preemption point, then t2 until it is done (or
// cannot go on), then the rest. False: t1 has fewer preemption points.
func preempt(k int64, t1, t2 func()) bool {
	verifyield.Limit = time.Second
	verifyield.Stall(k, 1<<30)
	d1, d2 := make(chan struct{}), make(chan struct{})
	go func() { t1(); close(d1) }()
	reached := true
	select {
	case <-verifyield.Held():
	case <-d1:
		select {
		case <-verifyield.Held():
		default:
			reached = false
		}
	}
	go func() { t2(); close(d2) }()
	if reached {
		t := time.NewTimer(700 * time.Microsecond)
		select {
		case <-d2:
		case <-t.C:
			count("blocked", 1)
		}
		t.Stop()
	}
	verifyield.Unstall()
	<-d1
	<-d2
	return reached
}

// cop is one operation of a concurrent history.
type cop struct {
	r rec
	f func(r rec) // runs the operation and stores the results in r
}

var histSeq int64

type stamped struct {
	seq int64
	ret bool
	op  *cop
}

// runHistory runs the threads concurrently and returns the events in an order
// consistent with real time: a return that precedes a call in the result
// really did.
func runHistory(threads [][]*cop, rng *rand.Rand, props []string, describe func() interface{}) []rec {
	var wg sync.WaitGroup
	start := make(chan struct{})
	evs := make([][]stamped, len(threads))
	seeds := make([]int64, len(threads))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	guard(props, "concurrent operations", describe)
	for i := range threads {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seeds[i]))
			<-start
			for _, op := range threads[i] {
				switch r.Intn(6) {
				case 0:
					runtime.Gosched()
				case 1:
					t := time.Now()
					d := time.Duration(r.Intn(20)) * time.Microsecond
					for time.Since(t) < d {
					}
				}
				evs[i] = append(evs[i], stamped{atomic.AddInt64(&histSeq, 1), false, op})
				op.f(op.r)
				evs[i] = append(evs[i], stamped{atomic.AddInt64(&histSeq, 1), true, op})
				verifyield.Progress()
			}
		}(i)
	}
	close(start)
	wg.Wait()
	unguard()
	var all []stamped
	for _, e := range evs {
		all = append(all, e...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].seq < all[b].seq })
	idx := map[*cop]int{}
	var out []rec
	for n, e := range all {
		if e.ret {
			out = append(out, rec{"k": "r", "c": idx[e.op]})
		} else {
			idx[e.op] = n + 1
			e.op.r["k"] = "c"
			out = append(out, e.op.r)
		}
	}
	return out
}

// traceWriter writes one history or event per line.
type traceWriter struct {
	f *os.File
	w *bufio.Writer
}

func newTrace() *traceWriter {
	f, err := os.Create(*fTrace)
	if err != nil {
		fatal(err)
	}
	return &traceWriter{f, bufio.NewWriter(f)}
}

func (t *traceWriter) put(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
}

func (t *traceWriter) close() {
	if err := t.w.Flush(); err != nil {
		fatal(err)
	}
	t.f.Close()
}

// hrec records calls and returns of operations as they happen.
type hrec struct {
	mu sync.Mutex
	ev []rec
}

func (h *hrec) do(r rec, f func(r rec)) {
	h.mu.Lock()
	r["k"] = "c"
	h.ev = append(h.ev, r)
	c := len(h.ev)
	h.mu.Unlock()
	f(r)
	h.mu.Lock()
	h.ev = append(h.ev, rec{"k": "r", "c": c})
	h.mu.Unlock()
	verifyield.Progress()
}
