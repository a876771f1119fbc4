package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// unitWorld is one distribution that several goroutines register and use.
type unitWorld struct {
	hrec
	d     anyDist
	base  string
	paths int
	last  string // a path at which it is registered
}

var unitWorlds int

func newUnitWorld(kind string) *unitWorld {
	unitWorlds++
	return &unitWorld{d: newAnyDist(tricorder.PowersOfTen, kind), base: fmt.Sprintf("/uc/%d", unitWorlds)}
}

func (w *unitWorld) op(op, u string) {
	w.mu.Lock()
	w.paths++
	path := fmt.Sprintf("%s/%d", w.base, w.paths)
	last := w.last
	w.mu.Unlock()
	if op == "Read" && last == "" {
		return
	}
	if op == "Read" {
		u = ""
	}
	w.do(rec{"op": op, "u": u}, func(r rec) {
		res := "ok"
		switch op {
		case "Reg":
			if err := tricorder.RegisterMetric(path, w.d.metric(), units.Unit(u), "d"); err == tricorder.ErrWrongUnit {
				res = "wrong unit"
			} else if err != nil {
				res = err.Error()
			} else {
				w.mu.Lock()
				w.last = path
				w.mu.Unlock()
			}
		case "AddF":
			if catch(func() { w.d.add(1e6) }) != nil {
				res = "panic"
			}
		case "AddD":
			if catch(func() { w.d.add(time.Second) }) != nil {
				res = "panic"
			}
		case "Read":
			ob, err := readDist(last, "read")
			if err != nil {
				res = err.Error()
			} else {
				r["u"], r["n"], r["sum"] = string(ob.unit), int(ob.d.Count), int(ob.d.Sum)
			}
		}
		r["res"] = res
	})
}

var concUnits = []string{"None", "Seconds", "Milliseconds", "Bytes"}

func init() {
	commands["unit-conc"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("unitconc", *fShard))
		var ys yieldSched
		finish := func(w *unitWorld) {
			for _, u := range concUnits {
				w.op("Reg", u)
			}
			w.op("AddF", "")
			w.op("AddD", "")
			w.op("Read", "")
			unguard()
			tricorder.UnregisterPath(w.base)
		}
		for n := 0; n < *fN; n++ {
			w := newUnitWorld([]string{"c", "n"}[rng.Intn(2)])
			guard([]string{"C19"}, "concurrent registrations of a distribution", func() interface{} { return w.ev })
			nt := 2 + rng.Intn(3)
			ys.arm(rng)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < nt; i++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(rng.Int63()))
				go func() {
					defer wg.Done()
					<-start
					for k := 1 + r.Intn(3); k > 0; k-- {
						op := []string{"Reg", "Reg", "Reg", "AddF", "AddD", "Read"}[r.Intn(6)]
						w.op(op, concUnits[r.Intn(len(concUnits))])
					}
				}()
			}
			close(start)
			wg.Wait()
			ys.disarm()
			finish(w)
			tw.put(rec{"ev": w.ev})
			count("histories", 1)
		}
		// one operation interrupted at each of its preemption points
		type o struct{ op, u string }
		one := []o{{"Reg", "Seconds"}, {"AddF", ""}, {"AddD", ""}}
		two := [][]o{
			{{"Reg", "Milliseconds"}}, {{"Reg", "Bytes"}, {"AddF", ""}}, {{"Reg", "Milliseconds"}, {"AddD", ""}}, {{"Reg", "Seconds"}, {"Reg", "None"}}, {{"AddF", ""}, {"AddD", ""}},
		}
		i := 0
		for _, first := range []string{"", "Seconds", "None"} {
			for _, kind := range []string{"c", "n"} {
				for _, a := range one {
					for _, b := range two {
						if i++; i%*fShards != *fShard {
							continue
						}
						for k := int64(1); k < 200; k++ {
							w := newUnitWorld(kind)
							guard([]string{"C19"}, "concurrent registrations of a distribution", func() interface{} { return w.ev })
							if first != "" {
								w.op("Reg", first)
							}
							more := preempt(k, func() { w.op(a.op, a.u) }, func() {
								for _, x := range b {
									w.op(x.op, x.u)
								}
							})
							finish(w)
							tw.put(rec{"ev": w.ev})
							count("schedules", 1)
							if !more {
								break
							}
						}
					}
				}
			}
		}
		tw.close()
	}
}
