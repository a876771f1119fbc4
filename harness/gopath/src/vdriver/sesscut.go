package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	commands["sessions-cut"] = sessCut
}

// fixed makes a request with everything chosen.
func (w *sessWorld) fixed(iface, path string, ws []int) func() {
	w.mu.Lock()
	w.nextR++
	r := &sessReq{id: w.nextR, w: ws, open: make(chan bool), gate: map[int]bool{}, done: make(chan struct{})}
	w.reqs[r.id] = r
	w.mu.Unlock()
	return func() { w.request(r, iface, path, -1, false) }
}

type cutTask struct {
	iface, path string // a request, or
	g           int    // a registration for group g
	ws          []int
	all         bool // every preemption point
}

// sessCut interrupts a request (or a registration) before its k-th statement,
// runs another request or registration, and goes on.
func sessCut() {
	rng := newRand(*fSeed, fmt.Sprint("sesscut", *fShard))
	w := newSessWorld(rng)
	tw := newTrace()
	defer tw.close()
	var tasks []cutTask
	for _, m := range w.of {
		if !strings.HasPrefix(m, "/S/f1/1") && !strings.HasPrefix(m, "/S/c2/1") {
			continue
		}
		for _, i := range sessSingle {
			tasks = append(tasks, cutTask{iface: i, path: m, ws: []int{w.meta[m].g}, all: true})
		}
	}
	for _, i := range sessIfaces {
		for _, d := range []string{"f1", "c1", "v1", "f12", "v12", "n21"} {
			if i == "html" && d[0] == 'n' {
				continue
			}
			ws := []int{}
			for _, g := range d[1:] {
				ws = append(ws, int(g-'0'))
			}
			tasks = append(tasks, cutTask{iface: i, path: "/S/" + d, ws: ws})
		}
	}
	tasks = append(tasks, cutTask{g: 1, all: true}, cutTask{g: 2, all: true})
	hist := func(t cutTask, k int64) bool {
		w.mutating = rng.Intn(4) == 0
		fn0 := w.begin()
		seed := rng.Int63()
		run := func() { w.register(t.g) }
		if t.g == 0 {
			run = w.fixed(t.iface, t.path, t.ws)
		}
		if rng.Intn(2) == 0 {
			// a request that runs an update function, before all this
			_, x := w.newReq([]int{1}, rng, false, false)
			x()
		}
		other := func() {
			r := rand.New(rand.NewSource(seed))
			g := 1
			if len(t.ws) > 0 {
				g = t.ws[r.Intn(len(t.ws))]
			} else if t.g > 0 {
				g = t.g
			}
			switch r.Intn(8) {
			case 0:
				w.register(g)
			case 1:
				w.register(g)
				_, x := w.newReq([]int{g}, r, false, false)
				x()
			case 2:
				_, x := w.newReq([]int{1, 2}, r, false, false)
				x()
			case 3:
				_, x := w.newReq([]int{g}, r, false, true)
				x()
			case 4:
				_, x := w.newReq([]int{g}, r, false, false)
				x()
				_, x = w.newReq([]int{g}, r, false, false)
				x()
			default:
				_, x := w.newReq([]int{g}, r, false, false)
				x()
			}
		}
		guard([]string{"C03", "C05"}, "a request interrupted at a statement", func() interface{} { return rec{"if": t.iface, "path": t.path, "g": t.g, "k": k} })
		reached := preempt(k, run, other)
		unguard()
		tw.put(w.trace(fn0))
		count("histories", 1)
		return reached
	}
	newRand(*fSeed, "sesscut-tasks").Shuffle(len(tasks), func(a, b int) { tasks[a], tasks[b] = tasks[b], tasks[a] })
	// the same task in several processes: each takes its part of the points
	for i, t := range tasks {
		if !t.all {
			if *fExtra == 0 && i%2 == 1 {
				continue
			}
			for n := int64(0); n < int64(*fN); n++ {
				if !hist(t, 1+rng.Int63n(900)) {
					n += 2
				}
			}
			continue
		}
		if *fExtra == 0 && i%4 != 0 && t.g == 0 && !(t.iface == "text1" && strings.HasPrefix(t.path, "/S/f")) {
			continue
		}
		for k := int64(1 + *fShard); k < 5000; k += int64(*fShards) {
			if !hist(t, k) {
				break
			}
		}
	}
	w.quiet()
}
