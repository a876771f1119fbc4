package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifyield"
)

// regConc records concurrent histories of the registry.
type regConc struct {
	mu     sync.Mutex
	ev     []rec
	names  []string
	rank   map[string]int
	ids    map[*tricorder.DirectorySpec]int
	usable []*tricorder.DirectorySpec // handles whose operation returned
	next   int64
	depth  map[int64]int // goroutine -> operations in progress
	nest   int           // callbacks run an operation: 1 in nest
	yield  int           // callbacks yield up to that many times
	noHTTP bool
	left   int // nested operations still allowed
	maxLen int
	menu   []int // operations to prefer
	fixed  bool  // nothing is left to chance
}

// Menus of operations that get in each other's way.
var regMenus = [][]int{
	{12, 12, 6, 0, 4},
	{12, 6, 4},
	{0, 0, 0, 6},
	{4, 0, 6},
	{8, 0, 6},
	{8, 12, 4, 0},
}

func (w *regConc) idOf(d *tricorder.DirectorySpec) int {
	if d == nil {
		return -1
	}
	if i, ok := w.ids[d]; ok {
		return i
	}
	i := len(w.ids)
	w.ids[d] = i
	return i
}

func (w *regConc) comps(abs string) []int {
	t := &regTracer{rank: w.rank}
	return t.comps(abs)
}

func (w *regConc) path(rng *rand.Rand, max int) []int {
	p := []int{}
	n := 1 + rng.Intn(max)
	for i := 0; i < n; i++ {
		k := len(w.names)
		if rng.Intn(2) == 0 {
			k = 1
		}
		p = append(p, 1+rng.Intn(k))
	}
	return p
}

func (w *regConc) callback(v int64) int64 {
	id := goid()
	w.mu.Lock()
	n := len(w.ev)
	do := w.nest > 0 && w.left > 0 && w.depth[id] == 1 && (n+int(v))%w.nest == 0
	if do {
		w.left--
	}
	y := w.yield
	w.mu.Unlock()
	for i := 0; i < y; i++ {
		runtime.Gosched()
	}
	if do {
		w.op(rand.New(rand.NewSource(int64(n)*31 + v)))
	}
	return v
}

// op runs one random operation and records it.
func (w *regConc) op(rng *rand.Rand) {
	k := rng.Intn(13)
	if len(w.menu) > 0 && rng.Intn(8) > 0 {
		k = w.menu[rng.Intn(len(w.menu))]
	}
	w.do(rng, k)
}

func (w *regConc) do(rng *rand.Rand, k int) {
	w.doPath(rng, k, w.path(rng, w.maxLen), rng.Intn(3) == 0)
}

// doPath runs operation k on path p; onHandle: relative to a handle.
func (w *regConc) doPath(rng *rand.Rand, k int, p []int, onHandle bool) {
	id := goid()
	w.mu.Lock()
	b := 0
	var d *tricorder.DirectorySpec
	if onHandle || k == 12 {
		d = w.usable[rng.Intn(len(w.usable))]
		if w.fixed || k == 12 && rng.Intn(4) > 0 {
			d = w.usable[len(w.usable)-1] // most likely still registered
		}
		b = w.ids[d]
	} else {
		d = w.usable[0]
	}
	if b != 0 && len(p) > 1 {
		p = p[:1]
	}
	e := rec{"k": "c", "op": "", "b": b, "rel": p, "v": 0, "res": "ok", "ret": 0, "got": []rec{}}
	w.depth[id]++
	var val int64
	switch k {
	case 0, 1, 2, 3:
		e["op"] = "RegMetric"
		w.next++
		val = w.next
		e["v"] = val
	case 4:
		e["op"] = "RegDir"
	case 5:
		e["op"] = "GetDir"
		e["b"], b, d = 0, 0, w.usable[0]
	case 6, 7:
		e["op"] = "Unreg"
	case 8, 9, 10:
		e["op"] = "List"
		e["b"], b, d = 0, 0, w.usable[0]
		if !w.fixed && rng.Intn(2) == 0 {
			p = []int{}
			e["rel"] = p
		}
	case 11:
		e["op"] = "Get"
		e["b"], b, d = 0, 0, w.usable[0]
	case 12:
		e["op"] = "UnregDir"
		e["rel"] = []int{}
	}
	w.mu.Unlock()
	parts := make([]string, len(p))
	for i, n := range p {
		parts[i] = w.names[n-1]
	}
	sp := spell(parts, rng)
	alt := rng.Intn(2) == 0
	iface := rng.Intn(3)
	cb := rng.Intn(2) == 0
	w.mu.Lock()
	w.ev = append(w.ev, e)
	c := len(w.ev)
	w.mu.Unlock()
	var nd *tricorder.DirectorySpec
	var err error
	pan := catch(func() {
		switch e["op"] {
		case "RegMetric":
			var x interface{} = &val
			if cb {
				x = func() int64 { return w.callback(val) }
			}
			if b == 0 && alt {
				err = tricorder.RegisterMetric(sp, x, units.None, "d")
			} else {
				err = d.RegisterMetric(sp, x, units.None, "d")
			}
		case "RegDir":
			if b == 0 && alt {
				nd, err = tricorder.RegisterDirectory(sp)
			} else {
				nd, err = d.RegisterDirectory(sp)
			}
		case "GetDir":
			nd, err = tricorder.GetDirectory(sp)
		case "Unreg":
			if b == 0 && alt {
				tricorder.UnregisterPath(sp)
			} else {
				d.UnregisterPath(sp)
			}
		case "UnregDir":
			d.UnregisterDirectory()
		case "List":
			var l []pv
			switch {
			case iface == 1:
				l, err = listRPC(sp)
			case iface == 2 && !w.noHTTP:
				l, err = listJSON(sp)
			default:
				l, err = listRead(sp)
			}
			got := []rec{}
			for _, x := range l {
				got = append(got, rec{"p": w.comps(x.P), "v": x.V})
			}
			e["got"] = got
		case "Get":
			var m *messages.Metric
			m, err = rpcGet(sp)
			if err != nil && err.Error() == messages.ErrMetricNotFound.Error() {
				err = nil
			} else if err == nil {
				v, _ := m.Value.(int64)
				e["got"] = []rec{{"p": w.comps(m.Path), "v": v}}
			}
		}
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	if pan != nil {
		e["res"] = fmt.Sprint("panic: ", pan)
	} else {
		e["res"] = errName(err)
	}
	if (e["op"] == "List" || e["op"] == "Get") && e["res"] != "ok" {
		e["got"] = []rec{{"p": []int{-9}, "v": -9}}
	}
	if nd != nil {
		e["ret"] = w.idOf(nd)
	}
	w.ev = append(w.ev, rec{"k": "r", "c": c})
	if nd != nil {
		known := false
		for _, u := range w.usable {
			known = known || u == nd
		}
		if !known {
			w.usable = append(w.usable, nd)
		}
	}
	w.depth[id]--
	verifyield.Progress()
}

type fixedOp struct {
	k        int
	p        []int
	onHandle bool
}

// What the systematic part is made of; operations are numbered as in doPath.
var (
	fixedOps = []fixedOp{
		{0, []int{1}, false}, {0, []int{1, 1}, false}, {4, []int{1}, false}, {4, []int{1, 1}, false},
		{6, []int{1}, false}, {6, []int{1, 1}, false}, {12, nil, false}, {0, []int{1}, true},
		{0, []int{2}, false}, {0, []int{1, 2}, false}, {6, []int{1}, true},
		{8, []int{}, false}, {8, []int{1}, false}, {5, []int{1}, false}, {11, []int{1, 1}, false},
	}
	fixedSetups = [][]fixedOp{
		{}, {{4, []int{1}, false}}, {{0, []int{1}, false}}, {{4, []int{1}, false}, {0, []int{1, 1}, false}},
		{{4, []int{1}, false}, {6, []int{1}, false}, {4, []int{1}, false}},
	}
)

// regPreempt: one operation is interrupted at each of its preemption points
// by one or two others, for all small scenarios.
func regPreempt() {
	tw := newTrace()
	tricorder.UnregisterPath("/proc")
	root, err := tricorder.GetDirectory("")
	if err != nil {
		mismatch([]string{"C07"}, "looking up the root fails", err.Error(), nil)
		return
	}
	seen := map[string]bool{}
	nw := 11 // the operations that change something
	rng := newRand(*fSeed, "regpreempt")
	run := func(setup []fixedOp, o1 fixedOp, o2 []fixedOp) {
		for k := int64(1); k < 400; k++ {
			w := &regConc{names: []string{"a", "b"}, rank: map[string]int{"a": 1, "b": 2}, fixed: true, yield: 0,
				ids: map[*tricorder.DirectorySpec]int{root: 0}, usable: []*tricorder.DirectorySpec{root}, depth: map[int64]int{}}
			r1, r2 := rand.New(rand.NewSource(rng.Int63())), rand.New(rand.NewSource(rng.Int63()))
			guard([]string{"C03", "C10"}, "registry operations", nil)
			for _, o := range setup {
				w.doPath(r1, o.k, o.p, o.onHandle)
			}
			more := preempt(k, func() { w.doPath(r1, o1.k, o1.p, o1.onHandle) }, func() {
				for _, o := range o2 {
					w.doPath(r2, o.k, o.p, o.onHandle)
				}
			})
			w.final()
			unguard()
			for _, s := range w.names {
				tricorder.UnregisterPath(s)
			}
			count("schedules", 1)
			b := string(mustJSON(w.ev))
			if !seen[b] {
				seen[b] = true
				tw.put(rec{"ev": w.ev, "names": w.names})
				count("histories", 1)
			}
			if !more {
				break
			}
		}
	}
	i := 0
	kinds := map[string][]int{"C06": {0}, "C07": {4, 5}, "C08": {6, 12}}[*fMode]
	each := func(setup []fixedOp, o1 fixedOp, o2 []fixedOp) {
		ok := len(kinds) == 0
		for _, k := range kinds {
			ok = ok || k == o1.k
		}
		if !ok {
			return
		}
		if i%*fShards == *fShard {
			run(setup, o1, o2)
			count("scenarios", 1)
		}
		i++
	}
	for _, s := range fixedSetups {
		for _, o1 := range fixedOps {
			for a, x := range fixedOps {
				each(s, o1, []fixedOp{x})
				if a < nw {
					for _, y := range fixedOps[:nw] {
						each(s, o1, []fixedOp{x, y})
					}
				}
			}
		}
	}
	tw.close()
}

func init() {
	commands["reg-preempt"] = regPreempt
	commands["reg-conc"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("regconc", *fShard))
		tricorder.UnregisterPath("/proc")
		root, err := tricorder.GetDirectory("")
		if err != nil {
			mismatch([]string{"C07"}, "looking up the root fails", err.Error(), nil)
			return
		}
		var ys, ysmall yieldSched
		for n := 0; n < *fN; n++ {
			w := &regConc{names: pickNames(rng, 1+rng.Intn(3)), rank: map[string]int{},
				ids: map[*tricorder.DirectorySpec]int{root: 0}, usable: []*tricorder.DirectorySpec{root},
				depth: map[int64]int{}, maxLen: 1 + rng.Intn(3), yield: rng.Intn(6), left: 3}
			if rng.Intn(2) == 0 {
				w.nest = 1 + rng.Intn(3)
			}
			for i, s := range w.names {
				w.rank[s] = i + 1
			}
			w.noHTTP = hasDot(w.names)
			if n%2 == 1 || *fMode == "C08" {
				w.menu = regMenus[rng.Intn(len(regMenus))]
				if *fMode == "C08" {
					w.menu = regMenus[rng.Intn(2)]
				}
				if rng.Intn(2) == 0 {
					w.names = w.names[:1]
					w.maxLen = 1 + rng.Intn(2)
				}
			}
			guard([]string{"C03", "C10"}, "registry operations", nil)
			small := rng.Intn(2) == 0
			if small {
				w.names, w.maxLen = w.names[:1], 1+rng.Intn(2)
				w.do(rng, []int{4, 4, 0, 0, 5}[rng.Intn(5)])
			} else {
				for k := rng.Intn(5); k > 0; k-- {
					w.op(rng)
				}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			nt := 2 + rng.Intn(3)
			if small {
				nt = 2
			}
			for t := 0; t < nt; t++ {
				seed := rng.Int63()
				wg.Add(1)
				nops := 1 + rng.Intn(3)
				if small {
					nops = 1 + t + rng.Intn(2)*t
				}
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					<-start
					for k := nops; k > 0; k-- {
						w.op(r)
					}
				}()
			}
			guard([]string{"C10"}, "concurrent registry operations", nil)
			y := &ys
			if small {
				y = &ysmall
			}
			y.arm(rng)
			close(start)
			wg.Wait()
			y.disarm()
			unguard()
			w.nest = 0
			// what is there in the end
			w.final()
			tw.put(rec{"ev": w.ev, "names": w.names})
			count("histories", 1)
			count("events", len(w.ev))
			for _, s := range w.names {
				tricorder.UnregisterPath(s)
			}
			if l := tricorder.ReadMyMetrics("/"); len(l) != 0 {
				mismatch([]string{"C08", "C10"}, "unregistering every top level name leaves metrics", len(l), w.ev)
				break
			}
		}
		tw.close()
	}
}

// final records a listing of everything and a lookup of every handle's path.
func (w *regConc) final() {
	l, err := listRead("/")
	got := []rec{}
	if err != nil {
		got = append(got, rec{"p": []int{-9}, "v": -9})
	}
	for _, x := range l {
		got = append(got, rec{"p": w.comps(x.P), "v": x.V})
	}
	w.ev = append(w.ev, rec{"k": "c", "op": "List", "b": 0, "rel": []int{}, "v": 0, "res": "ok", "ret": 0, "got": got})
	w.ev = append(w.ev, rec{"k": "r", "c": len(w.ev)})
	for _, d := range w.usable[1:] {
		abs := d.AbsPath()
		nd, err := tricorder.GetDirectory(abs)
		e := rec{"k": "c", "op": "GetDir", "b": 0, "rel": w.comps(abs), "v": 0, "res": errName(err), "ret": 0, "got": []rec{}}
		if nd != nil {
			e["ret"] = w.idOf(nd)
		}
		w.ev = append(w.ev, e)
		w.ev = append(w.ev, rec{"k": "r", "c": len(w.ev)})
	}
}
