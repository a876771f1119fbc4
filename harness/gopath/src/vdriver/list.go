package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

type listInfo struct {
	Cont, Own []int
}

type listAct struct {
	Op  string
	S   []int
	I   int
	E   int
	Ch  bool
	Res string
}

type listSUT struct {
	g     *Graph
	n     int
	k     *goKind
	st    reflect.Type // slice type
	elems [][]interface{}
	own   reflect.Value
	l     *tricorder.List
	paths []string
	units []units.Unit
	last  window
	rng   *rand.Rand
	kept  []keptList
	desc  string
	bad   bool // did not start well
}

// keptList is an earlier answer.
type keptList struct {
	o    *metObs
	vals []string
}

// the values of the elements; an element of the specification may be a
// number of elements in a row.
func (s *listSUT) expand(e []int) []interface{} {
	var r []interface{}
	for _, x := range e {
		r = append(r, s.elems[x-1]...)
	}
	return r
}

func (s *listSUT) slice(e []int) reflect.Value {
	vs := s.expand(e)
	if len(vs) == 0 && s.rng.Intn(2) == 0 {
		return reflect.Zero(s.st)
	}
	sl := reflect.MakeSlice(s.st, 0, len(vs)+s.rng.Intn(3))
	for _, v := range vs {
		sl = reflect.Append(sl, convertTo(v, s.k.t))
	}
	return sl
}

func (s *listSUT) Reset(init int, rng *rand.Rand) bool {
	for _, p := range s.paths {
		tricorder.UnregisterPath(p)
	}
	s.rng = rng
	s.n++
	s.kept, s.paths, s.units = nil, nil, nil
	s.k = &goKinds[rng.Intn(len(goKinds))]
	s.st = reflect.SliceOf(s.k.t)
	switch {
	case s.k.name == "int64" && rng.Intn(2) == 0:
		s.st = rt(mySlice(nil))
	case s.k.name == "string" && rng.Intn(2) == 0:
		s.st = rt(myStrings(nil))
	}
	reps := 1
	switch rng.Intn(12) {
	case 0:
		reps = 2 + rng.Intn(8)
	case 1:
		reps = 100 + rng.Intn(300)
	}
	if s.n == 2 {
		reps = 5000
	}
	p := rng.Perm(len(s.k.vals))
	s.elems = nil
	for i := 0; i < 3; i++ {
		var e []interface{}
		for j := 0; j < reps; j++ {
			v := s.k.vals[p[i%len(p)]]
			if j > 0 && j < reps-1 && rng.Intn(4) == 0 {
				v = s.k.vals[rng.Intn(len(s.k.vals))]
			}
			e = append(e, v)
		}
		s.elems = append(s.elems, e)
	}
	s.desc = fmt.Sprintf("%v, elements of %d", s.st, reps)
	var st listInfo
	if err := json.Unmarshal(s.g.States[init], &st); err != nil {
		fatal(err)
	}
	s.own = reflect.MakeSlice(s.st, 0, 4*reps)
	for _, v := range s.expand(st.Own) {
		s.own = reflect.Append(s.own, convertTo(v, s.k.t))
	}
	arg, mut := s.own, tricorder.MutableSlice
	if fmt.Sprint(st.Own) != fmt.Sprint(st.Cont) {
		arg, mut = s.slice(st.Cont), tricorder.ImmutableSlice
	}
	s.last.a = time.Now()
	if p := catch(func() { s.l = tricorder.NewList(arg.Interface(), mut) }); p != nil {
		mismatch([]string{"C20"}, fmt.Sprintf("NewList(%s) panicked: %v", s.desc, p), nil, nil)
		return false
	}
	s.last.b = time.Now()
	for i := 0; i <= rng.Intn(2); i++ {
		u := []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, units.Unknown, units.Celsius}[rng.Intn(6)]
		pt := fmt.Sprintf("/list/%d/%d/%c", *fShard, s.n, 'a'+i)
		if err := tricorder.RegisterMetric(pt, s.l, u, "a list"); err != nil {
			mismatch([]string{"C20"}, "registering a list: "+err.Error(), s.desc, nil)
			return false
		}
		s.paths, s.units = append(s.paths, pt), append(s.units, u)
	}
	return s.look(st, nil, func() interface{} { return "creation" })
}

// otherSlice is something this list cannot be changed to.
func (s *listSUT) otherSlice() interface{} {
	if s.rng.Intn(2) == 0 {
		for {
			k := goKinds[s.rng.Intn(len(goKinds))]
			if k.kind != s.k.kind {
				n := s.rng.Intn(3)
				return reflect.MakeSlice(reflect.SliceOf(k.t), n, n).Interface()
			}
		}
	}
	x := convertTo(s.k.vals[0], s.k.t)
	pp := reflect.New(s.k.t)
	pp.Elem().Set(x)
	ps := reflect.MakeSlice(reflect.SliceOf(pp.Type()), 1, 1)
	ps.Index(0).Set(pp)
	bads := []interface{}{nil, 5, "abc", ps.Interface(), []complex128{1}, []interface{}{x.Interface()}, [2]int64{1, 2}, map[string]int{}, x.Interface(), pp.Interface(), [][]int64{{1}}, []struct{}{}}
	return bads[s.rng.Intn(len(bads))]
}

func (s *listSUT) Step(raw json.RawMessage, target int, replay func() interface{}) bool {
	var a listAct
	if err := json.Unmarshal(raw, &a); err != nil {
		fatal(err)
	}
	var st listInfo
	if err := json.Unmarshal(s.g.States[target], &st); err != nil {
		fatal(err)
	}
	rp := func() interface{} { return map[string]interface{}{"list": s.desc, "walk": replay()} }
	guard([]string{"C20"}, "operations on a list", rp)
	defer unguard()
	reps := len(s.elems[0])
	w := window{a: time.Now()}
	p := catch(func() {
		switch a.Op {
		case "ChangeOwn":
			s.l.Change(s.own.Interface(), tricorder.MutableSlice)
		case "ChangeTo":
			s.l.Change(s.slice(a.S).Interface(), s.rng.Intn(2) == 0)
		case "Write":
			for j, v := range s.elems[a.E-1] {
				s.own.Index((a.I-1)*reps + j).Set(convertTo(v, s.k.t))
			}
		case "Grow":
			for _, v := range s.elems[a.E-1] {
				s.own = reflect.Append(s.own, convertTo(v, s.k.t))
			}
		case "Shrink":
			s.own = s.own.Slice(0, s.own.Len()-reps)
		case "Refused":
			s.l.Change(s.otherSlice(), s.rng.Intn(2) == 0)
		default:
			fatal(a.Op)
		}
	})
	w.b = time.Now()
	r := "ok"
	if p != nil {
		r = "panic"
	}
	if r != a.Res {
		mismatch([]string{"C20"}, fmt.Sprintf("%s: panic %v, specification says %s", a.Op, p, a.Res), s.desc, rp())
		return false
	}
	if a.Ch {
		s.last = w
	}
	return s.look(st, &a, rp)
}

func (s *listSUT) look(st listInfo, a *listAct, rp func() interface{}) bool {
	var want []string
	text := true
	for _, v := range s.expand(st.Cont) {
		want = append(want, canon(v))
		text = text && textable(v)
	}
	ok := true
	bad := func(what string, det interface{}) {
		ok = false
		mismatch([]string{"C20"}, what, det, rp())
	}
	// what was answered before stays
	for _, k := range s.kept {
		if got := canonAll(k.o.raw); strings.Join(got, "\x00") != strings.Join(k.vals, "\x00") {
			bad("an earlier answer has changed", map[string]interface{}{"was": brief(k.vals), "is": brief(got)})
		}
	}
	for i := range s.paths {
		iface := valIfaces[s.rng.Intn(len(valIfaces))]
		if s.rng.Intn(2) == 0 {
			iface = "read"
		}
		if iface == "text" && !text {
			iface = "read"
		}
		ob, err := readMetric(s.paths[i], iface, types.List, s.k.kind, s.units[i])
		if err != nil {
			bad("reading by "+iface+": "+err.Error(), s.desc)
			return false
		}
		count("readings", 1)
		wv := want
		if !ob.exact {
			wv = foldZeros(want, s.k.kind)
		}
		if strings.Join(ob.Vals, "\x00") != strings.Join(wv, "\x00") || len(ob.Vals) != len(wv) {
			bad("contents", map[string]interface{}{"by": iface, "got": brief(ob.Vals), "want": brief(wv), "list": s.desc})
		}
		if ob.meta {
			if ob.Kind != types.List || ob.Sub != s.k.kind {
				bad("kind", map[string]interface{}{"by": iface, "got": []types.Type{ob.Kind, ob.Sub}, "want": s.k.kind})
			}
			if ob.TS.Before(s.last.a.Round(0)) || ob.TS.After(s.last.b.Round(0)) {
				bad("timestamp is not that of the last change", map[string]interface{}{"by": iface, "ts": ob.TS, "change began": s.last.a, "change ended": s.last.b})
			}
		}
		if ob.GoType != "" && ob.GoType != reflect.SliceOf(s.k.api).String() {
			bad("Go type", map[string]interface{}{"got": ob.GoType, "want": reflect.SliceOf(s.k.api).String()})
		}
		if iface == "read" && len(s.kept) < 5 {
			s.kept = append(s.kept, keptList{ob, ob.Vals})
		}
	}
	return ok
}

func brief(l []string) []string {
	if len(l) > 12 {
		return append(append([]string{}, l[:12]...), fmt.Sprintf("... (%d)", len(l)))
	}
	return l
}

// ---- concurrency ----

type listWorld struct {
	hrec
	l     *tricorder.List
	kind  *goKind
	paths []string
	next  int
	wins  map[int]window
	obs   map[int][]*metObs
}

var listWorlds int

// contents of change id
func changeLen(id int) int { return (id*5)%7 + 1 }

func (w *listWorld) make(id int) reflect.Value {
	n := changeLen(id)
	s := reflect.MakeSlice(reflect.SliceOf(w.kind.t), n, n+2)
	w.fill(s, id)
	return s
}

func (w *listWorld) fill(s reflect.Value, id int) {
	for i := 0; i < s.Len(); i++ {
		switch w.kind.kind {
		case types.String:
			s.Index(i).SetString(fmt.Sprint(id))
		case types.GoTime:
			s.Index(i).Set(reflect.ValueOf(time.Unix(int64(id), 0)))
		case types.Float64:
			s.Index(i).SetFloat(float64(id))
		default:
			s.Index(i).SetInt(int64(id))
		}
	}
}

// saw: the change whose contents these are.
func (w *listWorld) saw(o *metObs) int {
	if len(o.Vals) == 0 {
		return -1
	}
	x := o.Vals[0]
	for _, v := range o.Vals {
		if v != x {
			return -1
		}
	}
	id := -1
	for i := 0; i <= w.next; i++ {
		c := w.make(i).Index(0)
		if canon(c.Convert(w.kind.api).Interface()) == x {
			id = i
		}
	}
	if id < 0 || changeLen(id) != len(o.Vals) {
		return -1
	}
	return id
}

func newListWorld(k *goKind) *listWorld {
	listWorlds++
	w := &listWorld{kind: k, wins: map[int]window{}, obs: map[int][]*metObs{}}
	a := time.Now()
	w.l = tricorder.NewList(w.make(0).Interface(), tricorder.MutableSlice)
	w.wins[0] = window{a, time.Now()}
	for i := 0; i < 2; i++ {
		p := fmt.Sprintf("/lc/%d/%d", listWorlds, i)
		if err := tricorder.RegisterMetric(p, w.l, units.None, "l"); err != nil {
			fatal(err)
		}
		w.paths = append(w.paths, p)
	}
	return w
}

func (w *listWorld) op(op, iface string, own reflect.Value) {
	w.mu.Lock()
	w.next++
	id := w.next
	w.mu.Unlock()
	w.do(rec{"op": op, "id": id}, func(r rec) {
		a := time.Now()
		switch op {
		case "Change":
			var s reflect.Value
			if own.IsValid() {
				// the thread's own slice, overwritten right afterwards
				s = own.Slice(0, changeLen(id))
				w.fill(s, id)
			} else {
				s = w.make(id)
			}
			a = time.Now()
			w.l.Change(s.Interface(), own.IsValid())
			if own.IsValid() {
				w.fill(s, 9999)
			}
		case "Refused":
			if catch(func() { w.l.Change([]bool{true}, false) }) == nil {
				mismatch([]string{"C20"}, "a list's element type was changed", nil, nil)
			}
		case "Read":
			ob, err := readMetric(w.paths[id%2], iface, types.List, w.kind.kind, units.None)
			if err != nil {
				mismatch([]string{"C20"}, "reading by "+iface+": "+err.Error(), nil, nil)
				ob = nil
			}
			w.mu.Lock()
			w.obs[id] = []*metObs{ob}
			w.mu.Unlock()
		}
		b := time.Now()
		w.mu.Lock()
		w.wins[id] = window{a, b}
		w.mu.Unlock()
	})
}

func (w *listWorld) history() rec {
	for _, p := range w.paths {
		tricorder.UnregisterPath(p)
	}
	changes := map[int]bool{0: true}
	for _, e := range w.ev {
		if e["k"] == "c" && e["op"] == "Change" {
			changes[e["id"].(int)] = true
		}
	}
	for _, e := range w.ev {
		if e["k"] != "c" || e["op"] != "Read" {
			continue
		}
		o := w.obs[e["id"].(int)][0]
		if o == nil {
			return nil
		}
		e["saw"] = w.saw(o)
		ts := []int{}
		for i := range changes {
			x := w.wins[i]
			if !o.meta || !o.TS.Before(x.a.Round(0)) && !o.TS.After(x.b.Round(0)) {
				ts = append(ts, i)
			}
		}
		sort.Ints(ts)
		e["ts"] = ts
	}
	return rec{"type": w.kind.name, "ev": w.ev}
}

var listConcKinds = []string{"int64", "int", "string", "time", "user int32", "float64"}

func init() {
	commands["list-mbt"] = func() {
		g := loadGraph(*fGraph)
		rng := newRand(*fSeed, fmt.Sprint("list", *fShard))
		tour(g, &listSUT{g: g}, rng, *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
	commands["list-conc"] = func() {
		tw := newTrace()
		rng := newRand(*fSeed, fmt.Sprint("listconc", *fShard))
		var ys yieldSched
		for n := 0; n < *fN; n++ {
			w := newListWorld(kindNamed(listConcKinds[rng.Intn(len(listConcKinds))]))
			guard([]string{"C20"}, "concurrent use of a list", func() interface{} { return w.ev })
			ys.arm(rng)
			var wg sync.WaitGroup
			start := make(chan struct{})
			nt := 2 + rng.Intn(3)
			for i := 0; i < nt; i++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(rng.Int63()))
				m := 2 + rng.Intn(4)
				go func() {
					defer wg.Done()
					own := reflect.MakeSlice(reflect.SliceOf(w.kind.t), 8, 8)
					<-start
					for j := 0; j < m; j++ {
						switch k := r.Intn(10); {
						case k < 2:
							w.op("Change", "", reflect.Value{})
						case k < 5:
							w.op("Change", "", own)
						case k < 6:
							w.op("Refused", "", own)
						default:
							w.op("Read", []string{"read", "read", "rpc-get", "json-list", "text"}[r.Intn(5)], own)
						}
						if r.Intn(8) == 0 {
							time.Sleep(time.Duration(r.Intn(30)) * time.Microsecond)
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			ys.disarm()
			w.op("Read", "read", reflect.Value{})
			unguard()
			if h := w.history(); h != nil {
				tw.put(h)
				count("histories", 1)
			}
		}
		tw.close()
	}
	commands["list-preempt"] = func() {
		tw := newTrace()
		one := []string{"Change", "ChangeOwn", "Refused", "Read:read", "Read:rpc-list", "Read:json-get", "Read:text"}
		two := [][]string{{"Change", "Read:read"}, {"ChangeOwn", "Read:read"}, {"Change", "ChangeOwn"}, {"Read:read", "Change"}, {"Refused", "Read:read"}}
		seen := map[string]bool{}
		i := 0
		for _, kn := range []string{"int64", "string", "int"} {
			for _, x := range one {
				for _, y := range two {
					i++
					if i%*fShards != *fShard {
						continue
					}
					for k := int64(1); k < 600; k++ {
						w := newListWorld(kindNamed(kn))
						own := reflect.MakeSlice(reflect.SliceOf(w.kind.t), 8, 8)
						run := func(o string) {
							switch {
							case o == "ChangeOwn":
								w.op("Change", "", own)
							case strings.HasPrefix(o, "Read:"):
								w.op("Read", o[5:], own)
							default:
								w.op(o, "", reflect.Value{})
							}
						}
						if x == "ChangeOwn" {
							own = reflect.MakeSlice(reflect.SliceOf(w.kind.t), 8, 8)
						}
						guard([]string{"C20"}, "concurrent use of a list", func() interface{} { return w.ev })
						more := preempt(k, func() {
							if x == "ChangeOwn" {
								w.op("Change", "", reflect.MakeSlice(reflect.SliceOf(w.kind.t), 8, 8))
								return
							}
							run(x)
						}, func() {
							for _, o := range y {
								run(o)
							}
						})
						w.op("Read", "read", own)
						w.op("Read", "json-list", own)
						unguard()
						count("schedules", 1)
						if h := w.history(); h != nil {
							key := string(mustJSON(h))
							if !seen[key] {
								seen[key] = true
								tw.put(h)
								count("histories", 1)
							}
						}
						if !more {
							break
						}
					}
				}
			}
		}
		tw.close()
	}
}
