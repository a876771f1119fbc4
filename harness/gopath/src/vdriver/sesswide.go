package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// newWideWorld is a world of n groups, all in one directory and each in
// directories of its own, with per metrics of each group in each of them.
func newWideWorld(rng *rand.Rand, n, per int) *sessWorld {
	w := sessBase(rng, n)
	add := func(d *sessDir, path string, v interface{}, g int, cb bool) {
		if err := tricorder.RegisterMetricInGroup(path, v, w.groups[g], units.None, "d"); err != nil {
			fatal("wide setup:", path, err)
		}
		m := &sessMetric{path, g, g, cb, sessMod(v)}
		w.meta[path] = m
		d.metrics = append(d.metrics, m)
	}
	all := []int{}
	flat := &sessDir{path: "/S/w", flat: true}
	deep := &sessDir{path: "/S/d"}
	for g := 1; g <= n; g++ {
		all = append(all, g)
		vr := &w.vars[g]
		one := &sessDir{path: fmt.Sprintf("/S/g%d", g), flat: true}
		for j := 0; j < per; j++ {
			// in the order of metrics first, in the order of groups in deep
			add(flat, fmt.Sprintf("/S/w/%04d-%d", j, g), &vr.a, g, false)
			add(one, fmt.Sprintf("/S/g%d/%d", g, j), &vr.b, g, false)
			add(deep, fmt.Sprintf("/S/d/%d/x%d/v", g, j), &vr.s, g, false)
		}
		add(flat, fmt.Sprintf("/S/w/%04d-%d", per, g), func() int64 { return w.callback(g, true) }, g, true)
		add(one, fmt.Sprintf("/S/g%d/cb", g), func() uint32 { return uint32(w.callback(g, true)) }, g, true)
		add(deep, fmt.Sprintf("/S/d/%d/cb", g), func() float64 { return float64(w.callback(g, true)) }, g, true)
		w.dirs[strconv.Itoa(g)] = []*sessDir{one}
	}
	top := []*sessDir{}
	if n*per < 300 && *fShard%2 == 0 {
		// several things at the top, and requests for everything there is
		root := &sessDir{path: "/"}
		for g := 1; g <= n; g++ {
			vr := &w.vars[g]
			for j := 1; j <= 3; j++ {
				add(root, fmt.Sprintf("/S%d/%d", j, g), &vr.a, g, false)
				add(root, fmt.Sprintf("/T%d/x/%d", j, g), func() int64 { return w.callback(g, false) }, g, false)
			}
			add(root, fmt.Sprintf("/S-%d", g), &vr.s, g, false)
		}
		root.metrics = append(root.metrics, flat.metrics...)
		root.metrics = append(root.metrics, deep.metrics...)
		for g := 1; g <= n; g++ {
			root.metrics = append(root.metrics, w.dirs[strconv.Itoa(g)][0].metrics...)
		}
		top = append(top, root)
	}
	for _, d := range append(top, flat, deep) {
		sort.Slice(d.metrics, func(a, b int) bool { return d.metrics[a].path < d.metrics[b].path })
	}
	w.dirs["all"] = append([]*sessDir{flat, deep}, top...)
	w.gid = make([]int, n)
	for i := range w.gid {
		w.gid[i] = -1000 - i
	}
	for _, m := range tricorder.ReadMyMetrics("/") {
		x := w.meta[m.Path]
		if x == nil {
			fatal("wide setup: metric", m.Path)
		}
		w.gid[x.s-1] = m.GroupId
	}
	w.ev = nil
	return w
}

func (w *sessWorld) allGroups() []int {
	l := []int{}
	for g := 1; g <= w.n; g++ {
		l = append(l, g)
	}
	return l
}

// sessWide: requests for very many groups, with very many metrics.
func sessWide() {
	rng := newRand(*fSeed, fmt.Sprint("sesswide", *fShard))
	tricorder.UnregisterPath("/proc")
	n, per := []int{70, 2, 9, 17, 33, 5, 40, 3}[*fShard%8], []int{2, 400, 3, 9, 2, 130, 3, 1100}[*fShard%8]
	w := newWideWorld(rng, n+rng.Intn(5), per)
	tw := newTrace()
	defer tw.close()
	for k := 0; k < *fN; k++ {
		w.mutating = false
		fn0 := w.begin()
		all := w.allGroups()
		one := func() {
			g := 1 + rng.Intn(w.n)
			_, run := w.newReqIn(w.dirs[strconv.Itoa(g)], []int{g}, rng, false, false)
			run()
		}
		guard([]string{"C03"}, "a request for many groups on its own", nil)
		for i := 0; i < 3; i++ {
			_, run := w.newReqIn(w.dirs["all"], all, rng, false, rng.Intn(4) == 0)
			run()
			one()
			if rng.Intn(2) == 0 {
				w.register(1 + rng.Intn(w.n))
			}
		}
		unguard()
		// one request stands in the callback of the last group while others come and go
		fail := rng.Intn(3) == 0
		a, runA := w.newReqIn(w.dirs["all"], all, rng, true, false)
		go runA()
		for i := 0; ; i++ {
			if !w.quiet() {
				break
			}
			w.mu.Lock()
			b := a.blocked
			w.mu.Unlock()
			if !b {
				break
			}
			if i == w.n/2 || i == w.n-1 {
				guard([]string{"C03"}, "a request for many groups others are reading", nil)
				if !fail {
					_, run := w.newReqIn(w.dirs["all"], all, rng, false, false)
					run()
				}
				one()
				unguard()
			}
			a.open <- i == w.n-1 && fail
		}
		if w.drain(true) {
			guard([]string{"C03"}, "a request for many groups on its own", nil)
			_, run := w.newReqIn(w.dirs["all"], all, rng, false, false)
			run()
			one()
			unguard()
			w.quiet()
		}
		tw.put(w.trace(fn0))
		count("histories", 1)
	}
}

// slowWriter stands in the way of a response for a while.
type slowWriter struct {
	*httptest.ResponseRecorder
	n    int
	gate func()
}

func (s *slowWriter) Write(b []byte) (int, error) {
	s.n++
	if s.n == 4 {
		s.gate()
	}
	return s.ResponseRecorder.Write(b)
}

func (s *slowWriter) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

// sessSlow: updates, callbacks and clients that take their time, and groups
// nobody asks for during a long time, while other requests and registrations
// come along. Real time passes, since code may look at the clock.
func sessSlow() {
	rng := newRand(*fSeed, fmt.Sprint("sessslow", *fShard))
	w := newSessWorld(rng)
	tw := newTrace()
	defer tw.close()
	total := time.Duration(*fExtra) * time.Millisecond
	at := []time.Duration{}
	for _, f := range []float64{0, 0.005, 0.05, 0.1, 0.18, 0.27, 0.45, 0.6, 0.9, 1} {
		at = append(at, time.Duration(f*float64(total)))
	}
	t0 := time.Now()
	until := func(d time.Duration) { time.Sleep(time.Until(t0.Add(d))) }
	start := func(ws []int, gated bool) *sessReq {
		r, run := w.newReq(ws, rng, gated, false)
		go run()
		return r
	}
	fn0 := w.begin()
	mode := *fShard % 5
	switch mode {
	case 0: // a slow update
		w.gateUpd[1] = true
		start([]int{1, 2}, false)
	case 1: // a slow callback
		start([]int{1, 2}, true)
	case 2: // a slow client
		d := w.dirs["12"][0]
		w.mu.Lock()
		w.nextR++
		r := &sessReq{id: w.nextR, w: []int{1, 2}, open: make(chan bool), gate: map[int]bool{}, done: make(chan struct{})}
		w.reqs[r.id] = r
		w.mu.Unlock()
		uri := "/metrics" + d.path
		if *fShard%2 == 0 {
			uri += "?format=text"
		}
		go func() {
			id := goid()
			w.mu.Lock()
			w.byGoid[id] = append(w.byGoid[id], r)
			w.ev = append(w.ev, rec{"k": "req", "r": r.id, "w": r.w, "if": "slow", "p": d.path})
			w.mu.Unlock()
			sw := &slowWriter{ResponseRecorder: httptest.NewRecorder(), gate: func() {
				w.mu.Lock()
				r.blocked = true
				w.mu.Unlock()
				<-r.open
				w.mu.Lock()
				r.blocked = false
				w.mu.Unlock()
			}}
			http.DefaultServeMux.ServeHTTP(sw, httptest.NewRequest("GET", uri, nil))
			items := []sessItem{}
			for _, line := range strings.Split(sw.Body.String(), "\n") {
				if p := strings.SplitN(line, " ", 2); len(p) == 2 && strings.HasSuffix(uri, "text") {
					if it, err := w.item(p[0], p[1], -1, -1); err == nil {
						items = append(items, it)
					}
				}
			}
			w.mu.Lock()
			w.ev = append(w.ev, rec{"k": "done", "r": r.id, "ok": true, "resp": items})
			delete(w.reqs, r.id)
			w.mu.Unlock()
			close(r.done)
		}()
	case 3: // nobody there
		_, run := w.newReq([]int{1, 2}, rng, false, false)
		run()
	case 4: // an update of one group while others are busy
		w.gateUpd[2] = true
		start([]int{1, 2}, false)
	}
	w.quiet()
	for i, d := range at {
		until(d)
		if i == len(at)-1 {
			break
		}
		ws := []int{1}
		if i%3 == 1 {
			ws = []int{1, 3}
		}
		if mode == 3 && i > 0 && i < len(at)-2 {
			continue
		}
		start(ws, false)
		w.quiet()
		if i == 2 || i == 6 {
			go w.register(1)
			w.quiet()
		}
	}
	w.quiet()
	w.gateUpd[1], w.gateUpd[2] = false, false
	if w.drain(true) {
		for i := 0; i < 2; i++ {
			_, run := w.newReq([]int{1, 2}, rng, false, false)
			run()
		}
		w.quiet()
	}
	tw.put(w.trace(fn0))
	count("histories", 1)
}

func init() {
	commands["sessions-wide"] = sessWide
	commands["sessions-slow"] = sessSlow
}
