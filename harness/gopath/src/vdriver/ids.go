package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// Groups, distributions and lists made by several goroutines at the same time,
// and the ids and times the responses show for their metrics.

type idsWorld struct {
	mu   sync.Mutex
	base string
	own  map[string]int // path -> owner of its group id
	next int
	ev   [][]rec
	// changed by callbacks while responses are put together
	lists []func()
	dists []*tricorder.NonCumulativeDistribution
}

func (w *idsWorld) owner() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next++
	return w.next
}

func (w *idsWorld) put(rng *rand.Rand, dir string, o int, m interface{}, g *tricorder.Group, unit units.Unit) {
	path := fmt.Sprintf("%s/%s/m%d-%d", w.base, dir, o, rng.Intn(1<<30))
	w.mu.Lock()
	w.own[path] = o
	w.mu.Unlock()
	var err error
	if g == nil {
		err = tricorder.RegisterMetric(path, m, unit, "d")
	} else {
		err = tricorder.RegisterMetricInGroup(path, m, g, unit, "d")
	}
	if err != nil {
		mismatch([]string{"C06"}, "registering "+path+": "+err.Error(), nil, nil)
	}
}

// someList returns a list, empty or not, and a function that changes it.
func someList(rng *rand.Rand) (l *tricorder.List, change func()) {
	n := []int{0, 0, 1, 2, 5}[rng.Intn(5)]
	many := rng.Intn(3) > 0 // or it stays as it is
	sharing := rng.Intn(2) == 0
	next := func(s interface{}) {
		if many {
			l.Change(s, sharing)
		}
	}
	now := func() int64 { return time.Now().UnixNano() }
	switch rng.Intn(6) {
	case 0:
		l = tricorder.NewList(make([]int64, n), sharing)
		change = func() { next([]int64{now()}) }
	case 1:
		l = tricorder.NewList(make([]string, n), sharing)
		change = func() { next([]string{fmt.Sprint(now()), ""}) }
	case 2:
		l = tricorder.NewList(make([]time.Time, n), sharing)
		change = func() { next([]time.Time{time.Now()}) }
	case 3:
		l = tricorder.NewList(make([]bool, n), sharing)
		change = func() { next(make([]bool, now()%3)) }
	case 4:
		l = tricorder.NewList(make([]float64, n), sharing)
		change = func() { next([]float64{float64(now())}) }
	default:
		l = tricorder.NewList(make([]time.Duration, n), sharing)
		change = func() { next(make([]time.Duration, now()%3)) }
	}
	return
}

var idsDirs = []string{"a", "b", "c", "a/x"}

// create makes an owner of a random sort with one to three metrics.
func (w *idsWorld) create(rng *rand.Rand) {
	dir := func() string { return idsDirs[rng.Intn(len(idsDirs))] }
	o := w.owner()
	n := 1 + rng.Intn(3)
	switch rng.Intn(5) {
	case 0, 1:
		g := tricorder.NewGroup()
		if rng.Intn(3) > 0 {
			var k int64
			g.RegisterUpdateFunc(func() time.Time { k++; return time.Unix(int64(o), k) })
		}
		for i := 0; i < n; i++ {
			switch rng.Intn(3) {
			case 0:
				w.put(rng, dir(), o, new(int64), g, units.None)
			case 1:
				w.put(rng, dir(), o, new(float64), g, units.Second)
			default:
				w.put(rng, dir(), o, func() string { w.stir(); return "x" }, g, units.None)
			}
		}
	case 2:
		l, change := someList(rng)
		w.mu.Lock()
		w.lists = append(w.lists, change)
		w.mu.Unlock()
		for i := 0; i < n; i++ {
			w.put(rng, dir(), o, l, nil, units.None)
		}
	case 3:
		d := tricorder.PowersOfTwo.NewNonCumulativeDistribution()
		for i := 0; i < n; i++ {
			w.put(rng, dir(), o, d, nil, units.Byte)
		}
		w.mu.Lock()
		w.dists = append(w.dists, d)
		w.mu.Unlock()
	default:
		d := tricorder.PowersOfTen.NewCumulativeDistribution()
		for i := 0; i < n; i++ {
			w.put(rng, dir(), o, d, nil, units.None)
		}
		d.Add(float64(n))
	}
}

// stir changes a list and a distribution.
func (w *idsWorld) stir() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, change := range w.lists {
		change()
	}
	for _, d := range w.dists {
		d.Add(1.0)
	}
}

type idJSON struct {
	Path      string
	GroupId   int
	TimeStamp string
}

func (w *idsWorld) read(path, iface string) {
	type item struct {
		path string
		id   int
		ts   string
	}
	var items []item
	list := func(l messages.MetricList) {
		for _, m := range l {
			t, _ := m.TimeStamp.(time.Time)
			items = append(items, item{m.Path, m.GroupId, t.UTC().Format(time.RFC3339Nano)})
		}
	}
	js := func(s string, single bool) {
		var l []idJSON
		var err error
		if single {
			l = make([]idJSON, 1)
			err = json.Unmarshal([]byte(s), &l[0])
		} else {
			err = json.Unmarshal([]byte(s), &l)
		}
		if err != nil {
			mismatch([]string{"C11", "C22"}, "JSON response: "+err.Error(), s, nil)
			return
		}
		for _, m := range l {
			items = append(items, item{m.Path, m.GroupId, m.TimeStamp})
		}
	}
	switch iface {
	case "read":
		list(tricorder.ReadMyMetrics(path))
	case "rpc":
		l, err := rpcList(path)
		if err != nil {
			mismatch([]string{"C11"}, "RPC: "+err.Error(), nil, nil)
			return
		}
		list(l)
	case "json":
		js(httpGet(reqURI("/metricsapi", path, ""), nil).Body.String(), false)
	case "rpc-get":
		m, err := rpcGet(path)
		if err != nil {
			mismatch([]string{"C11"}, "RPC: "+err.Error(), nil, nil)
			return
		}
		list(messages.MetricList{m})
	case "json-get":
		js(httpGet(reqURI("/metricsapi", path, "singleton=true"), nil).Body.String(), true)
	}
	ts := map[string]int{}
	w.mu.Lock()
	defer w.mu.Unlock()
	var resp []rec
	for _, x := range items {
		o := w.own[x.path]
		if o == 0 {
			mismatch([]string{"C09"}, "reported but never registered: "+x.path, nil, nil)
			return
		}
		if _, ok := ts[x.ts]; !ok {
			ts[x.ts] = len(ts)
		}
		resp = append(resp, rec{"o": o, "i": x.id, "t": ts[x.ts]})
	}
	if resp != nil {
		w.ev = append(w.ev, resp)
	}
}

var idsIfaces = []string{"read", "rpc", "json"}

func (w *idsWorld) readAll(rng *rand.Rand) {
	for _, i := range idsIfaces {
		w.read(w.base, i)
	}
	w.mu.Lock()
	var ps []string
	for i := 1; i <= w.next; i++ {
		for p, o := range w.own {
			if o == i {
				ps = append(ps, p)
			}
		}
	}
	w.mu.Unlock()
	for i := 0; i < 4 && len(ps) > 0; i++ {
		p := ps[rng.Intn(len(ps))]
		w.read(p, append(idsIfaces, "rpc-get", "json-get")[rng.Intn(5)])
	}
}

// manyIds: owners whose ids lie far apart. Between them come lists nobody
// registers, so many that ids that come again after some time would show.
func manyIds(rng *rand.Rand) *idsWorld {
	w := &idsWorld{base: "/idsmany", own: map[string]int{}}
	guard([]string{"C04"}, "making many lists", nil)
	defer unguard()
	made := 0
	put := func(n int) {
		for ; n > 0; n-- {
			o := w.owner()
			w.put(rng, idsDirs[rng.Intn(len(idsDirs))], o, tricorder.NewList([]int64{1}, tricorder.ImmutableSlice), nil, units.None)
			made++
		}
	}
	put(30)
	for _, at := range []int{100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144, 524288, 1000000, 1048576} {
		for ; made < at; made++ {
			tricorder.NewList([]int64{}, tricorder.ImmutableSlice)
		}
		put(24)
	}
	w.read(w.base, "read")
	w.read(w.base, "json")
	return w
}

func init() {
	commands["ids"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("ids", *fShard))
		var ys yieldSched
		if *fShard == 0 {
			w := manyIds(rng)
			tricorder.UnregisterPath(w.base)
			tw.put(rec{"ev": w.ev})
			count("histories", 1)
			count("responses", len(w.ev))
		}
		for n := 0; n < *fN; n++ {
			w := &idsWorld{base: fmt.Sprintf("/ids%d", n), own: map[string]int{}}
			guard([]string{"C04", "C10"}, "creating and reading metrics concurrently", func() interface{} { return nil })
			ys.arm(rng)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 2 + rng.Intn(4); i > 0; i-- {
				wg.Add(1)
				r := rand.New(rand.NewSource(rng.Int63()))
				m := 1 + rng.Intn(4)
				go func() {
					defer wg.Done()
					<-start
					for j := 0; j < m; j++ {
						if r.Intn(4) == 0 {
							w.read(w.base+"/"+idsDirs[r.Intn(len(idsDirs))], idsIfaces[r.Intn(3)])
						}
						w.create(r)
					}
				}()
			}
			close(start)
			wg.Wait()
			ys.disarm()
			w.readAll(rng)
			// what is registered anew keeps its id, what is made anew gets its own
			for i := 0; i < 3; i++ {
				w.create(rng)
				w.stir()
			}
			w.readAll(rng)
			unguard()
			tricorder.UnregisterPath(w.base)
			tw.put(rec{"ev": w.ev})
			count("histories", 1)
			count("responses", len(w.ev))
		}
		tw.close()
	}
}
