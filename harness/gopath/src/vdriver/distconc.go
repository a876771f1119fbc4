package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// distWorld is one distribution used by several goroutines.
type distWorld struct {
	hrec
	d    anyDist
	em   embed
	ends []int
	path string
	kind string
	next int
	wins map[int]window
	obs  map[int]*distObs // event recorded by a Snap -> what was read
}

var distWorlds int

func newDistWorld(kind string, ends []int, em embed) *distWorld {
	distWorlds++
	w := &distWorld{ends: ends, kind: kind, wins: map[int]window{}, obs: map[int]*distObs{}, em: em}
	var f []float64
	for _, e := range ends {
		f = append(f, w.em.to(e))
	}
	a := time.Now()
	w.d = newAnyDist(tricorder.NewArbitraryBucketer(f...), kind)
	w.wins[0] = window{a, time.Now()}
	w.path = fmt.Sprintf("/dc/%d", distWorlds)
	if err := tricorder.RegisterMetric(w.path, w.d.metric(), units.None, "d"); err != nil {
		fatal(err)
	}
	return w
}

// op runs one operation: Add v, Upd o v, Rem v, Snap (by interface), Sum, Count.
func (w *distWorld) op(op string, o, v int, iface string) {
	w.mu.Lock()
	w.next++
	id := w.next
	w.mu.Unlock()
	w.do(rec{"op": op, "id": id, "o": o, "v": v}, func(r rec) {
		a := time.Now()
		switch op {
		case "Add":
			w.d.add(w.em.to(v))
		case "Upd":
			w.d.n.Update(w.em.to(o), w.em.to(v))
		case "Rem":
			w.d.n.Remove(w.em.to(v))
		case "Sum":
			r["raw"] = w.d.n.Sum()
		case "Count":
			r["n"] = int(w.d.n.Count())
		case "Snap":
			ob, err := readDist(w.path, iface)
			if err != nil {
				mismatch([]string{"C17"}, "reading by "+iface+": "+err.Error(), nil, nil)
				ob = nil
			}
			w.mu.Lock()
			w.obs[id] = ob
			w.mu.Unlock()
		}
		b := time.Now()
		w.mu.Lock()
		w.wins[id] = window{a, b}
		w.mu.Unlock()
	})
}

// history puts the readings into the terms of the specification.
func (w *distWorld) history() rec {
	tricorder.UnregisterPath(w.path)
	changes := map[int]window{0: w.wins[0]}
	for _, e := range w.ev {
		if e["k"] == "c" && (e["op"] == "Add" || e["op"] == "Upd" || e["op"] == "Rem") {
			changes[e["id"].(int)] = w.wins[e["id"].(int)]
		}
	}
	for _, e := range w.ev {
		if e["k"] != "c" {
			continue
		}
		switch e["op"] {
		case "Snap":
			ob := w.obs[e["id"].(int)]
			if ob == nil {
				return nil
			}
			for k, x := range w.em.snap(ob, changes) {
				e[k] = x
			}
			delete(e, "ends")
			e["k"] = "c"
		case "Sum":
			// how many values it is the sum of is not known
			n := 0
			x := e["raw"].(float64)
			delete(e, "raw")
			e["sum"] = noInt
			if x == 0 {
				e["sum"] = 0
			} else if w.em.off == 0 {
				e["sum"] = w.em.fromN(x, 1)
			} else {
				for n = 1; n < 40; n++ {
					// values are small against the offset
					if v := w.em.fromN(x, n); v != noInt && v < 200 && v > -200 {
						e["sum"] = v
						break
					}
				}
			}
		}
	}
	return rec{"kind": w.kind, "ends": w.ends, "scale": fmt.Sprint(w.em.scale), "off": fmt.Sprint(w.em.off), "ev": w.ev}
}

var concEnds = []int{0, 8, 10, 13}

func concValue(rng *rand.Rand) int { return []int{-3, 0, 5, 8, 9, 10, 12, 20}[rng.Intn(8)] }

func (w *distWorld) thread(rng *rand.Rand, n int, own []int) {
	for i := 0; i < n; i++ {
		k := rng.Intn(10)
		switch {
		case k < 3 || k < 6 && (w.kind == "c" || len(own) == 0):
			v := concValue(rng)
			w.op("Add", 0, v, "")
			own = append(own, v)
		case k < 5:
			j, v := rng.Intn(len(own)), concValue(rng)
			w.op("Upd", own[j], v, "")
			own[j] = v
		case k < 6:
			v := own[len(own)-1]
			w.op("Rem", 0, v, "")
			own = own[:len(own)-1]
		case k < 7 && w.kind == "n" && (w.em.off == 0 || w.em.off/w.em.scale > 10000):
			w.op([]string{"Sum", "Count"}[rng.Intn(2)], 0, 0, "")
		default:
			w.op("Snap", 0, 0, []string{"read", "read", "rpc-get", "json-list"}[rng.Intn(4)])
		}
		if rng.Intn(8) == 0 {
			time.Sleep(time.Duration(rng.Intn(30)) * time.Microsecond)
		}
	}
}

func init() {
	commands["dist-conc"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("distconc", *fShard))
		var ys yieldSched
		for n := 0; n < *fN; n++ {
			w := newDistWorld([]string{"c", "n", "n"}[rng.Intn(3)], concEnds, embeds[rng.Intn(len(embeds))])
			guard([]string{"C17"}, "concurrent use of a distribution", func() interface{} { return w.ev })
			// each thread gets values of its own first
			nt := 2 + rng.Intn(3)
			owns := make([][]int, nt)
			for i := range owns {
				for k := rng.Intn(3); k > 0; k-- {
					v := concValue(rng)
					w.op("Add", 0, v, "")
					owns[i] = append(owns[i], v)
				}
			}
			ys.arm(rng)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < nt; i++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(rng.Int63()))
				own := owns[i]
				m := 2 + rng.Intn(4)
				go func() {
					defer wg.Done()
					<-start
					w.thread(r, m, own)
				}()
			}
			close(start)
			wg.Wait()
			ys.disarm()
			w.op("Snap", 0, 0, "read")
			unguard()
			if h := w.history(); h != nil {
				tw.put(h)
				count("histories", 1)
			}
		}
		tw.close()
	}
	// one operation interrupted at each of its preemption points
	commands["dist-preempt"] = func() {
		tw := newTrace()
		type o struct {
			op   string
			o, v int
		}
		// the first thread owns 9, the second 12 and 20
		one := []o{{"Add", 0, 5}, {"Upd", 9, 0}, {"Upd", 9, 30}, {"Rem", 0, 9}, {"Snap", 0, 0}, {"Sum", 0, 0}, {"Count", 0, 0}}
		two := [][]o{
			{{"Add", 0, -3}, {"Snap", 0, 0}}, {{"Upd", 12, 8}, {"Snap", 0, 0}}, {{"Rem", 0, 12}, {"Snap", 0, 0}}, {{"Snap", 0, 0}},
			{{"Add", 0, 40}, {"Rem", 0, 20}}, {{"Rem", 0, 12}, {"Rem", 0, 20}}, {{"Upd", 20, -7}, {"Add", 0, 20}},
		}
		// the same with as few values as the operations need
		type world struct {
			kind string
			vals []int
			one  []o
			two  [][]o
		}
		worlds := []world{
			{"n", []int{9, 12, 20, 5, 8}, one, two},
			{"n", []int{9, 12, 20}, one, two},
		}
		for _, kind := range []string{"c", "n"} {
			none := world{kind: kind, one: []o{{"Add", 0, 5}, {"Add", 0, 30}, {"Snap", 0, 0}}, two: [][]o{
				{{"Add", 0, -3}}, {{"Add", 0, 40}}, {{"Add", 0, -3}, {"Add", 0, 40}}, {{"Add", 0, 9}, {"Snap", 0, 0}, {"Add", 0, 9}}, {{"Snap", 0, 0}},
			}}
			if kind == "n" {
				none.one = append(none.one, o{"Sum", 0, 0}, o{"Count", 0, 0})
				none.two = append(none.two, []o{{"Add", 0, 40}, {"Rem", 0, 40}}, []o{{"Add", 0, -3}, {"Upd", -3, 40}}, []o{{"Add", 0, -3}, {"Add", 0, 12}, {"Rem", 0, -3}})
			}
			worlds = append(worlds, none)
		}
		worlds = append(worlds,
			world{"n", []int{9}, []o{{"Upd", 9, 0}, {"Upd", 9, 30}, {"Rem", 0, 9}}, [][]o{
				{{"Add", 0, -3}}, {{"Add", 0, 40}}, {{"Add", 0, 20}, {"Rem", 0, 20}}, {{"Snap", 0, 0}},
			}},
			world{"n", []int{9, 12}, []o{{"Upd", 9, 0}, {"Upd", 9, 30}, {"Rem", 0, 9}, {"Snap", 0, 0}}, [][]o{
				{{"Rem", 0, 12}}, {{"Rem", 0, 12}, {"Add", 0, 40}}, {{"Upd", 12, -7}}, {{"Upd", 12, -7}, {"Upd", -7, 40}},
			}})
		seen := map[string]bool{}
		i := 0
		for _, wd := range worlds {
			for _, a := range wd.one {
				for _, b := range wd.two {
					i++
					if i%*fShards != *fShard {
						continue
					}
					for k := int64(1); k < 400; k++ {
						w := newDistWorld(wd.kind, concEnds, embeds[0])
						guard([]string{"C17"}, "concurrent use of a distribution", func() interface{} { return w.ev })
						for _, v := range wd.vals {
							w.op("Add", 0, v, "")
						}
						more := preempt(k, func() { w.op(a.op, a.o, a.v, "read") }, func() {
							for _, x := range b {
								w.op(x.op, x.o, x.v, "read")
							}
						})
						w.op("Snap", 0, 0, "read")
						if wd.kind == "n" {
							w.op("Count", 0, 0, "")
							w.op("Sum", 0, 0, "")
						}
						unguard()
						count("schedules", 1)
						if h := w.history(); h != nil {
							key := string(mustJSON(h))
							if !seen[key] {
								seen[key] = true
								tw.put(h)
								count("histories", 1)
							}
						}
						if !more {
							break
						}
					}
				}
			}
		}
		tw.close()
	}
}
