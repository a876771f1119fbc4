package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// ---- replay of MetricsMC ----

type nfInfo struct {
	Must, May map[string][]int
}

type nfAct struct {
	Op string
	S  int
	C  string
}

type nfSUT struct {
	g     *Graph
	infos []*nfInfo
	rng   *rand.Rand
	base  string
	n     int
	objs  [7]*mobj
	regs  map[string]*mreg
	fin   [7]interface{}
	c     [7]string
}

var nfSlots = [7][3]string{{}, {"x", "var", "float64"}, {"x", "func", "float32"}, {"x", "var", "int64"}, {"y", "list", "float64"}, {"y", "dist", ""}, {"y", "func", "user float64"}}

func (s *nfSUT) path(i int) string { return fmt.Sprintf("%s/%s/m%d", s.base, nfSlots[i][0], i) }

func (s *nfSUT) Reset(init int, rng *rand.Rand) bool {
	s.rng = rng
	tricorder.UnregisterPath(s.base)
	s.n++
	s.base = fmt.Sprintf("/nf/%d", s.n)
	s.objs, s.regs, s.c = [7]*mobj{}, map[string]*mreg{}, [7]string{}
	return true
}

// give the slot a value of the class
func (s *nfSUT) give(i int, c string) {
	o := s.objs[i]
	s.c[i] = c
	f32 := o.k != nil && o.k.kind == types.Float32
	v := func(c string) interface{} {
		f := 0.0
		switch c {
		case "nan":
			f = math.NaN()
		case "pinf":
			f = math.Inf(1)
		case "ninf":
			f = math.Inf(-1)
		default:
			f = float64(float32(s.rng.NormFloat64() * 100))
			if s.rng.Intn(8) == 0 {
				f = math.MaxFloat32 * float64(1-2*s.rng.Intn(2))
			}
		}
		if f32 {
			return float32(f)
		}
		return f
	}
	switch {
	case o.w == "dist":
		if c == "nan" {
			o.dist.add([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[s.rng.Intn(3)])
			// infinities may cancel each other, not so NaN
		} else {
			// as large and as small as they come
			o.dist.add(math.Copysign(1, s.rng.Float64()-.5) * s.rng.Float64() * []float64{1, 1, 1.7e300, 1e-300, 5e-324, 1e20}[s.rng.Intn(6)])
		}
	case o.k.kind == types.Int64:
		o.set(s.rng, []interface{}{s.rng.Int63()})
	case o.w == "list":
		vs := []interface{}{}
		for n := s.rng.Intn(4); n > 0; n-- {
			vs = append(vs, v("fin"))
		}
		vs = append(vs, v(c))
		for n := s.rng.Intn(3); n > 0; n-- {
			vs = append(vs, v("fin"))
		}
		o.set(s.rng, vs)
	case c == "finnan":
		o.set(s.rng, []interface{}{v("fin")})
		o.alt, o.n = []interface{}{v("fin"), v([]string{"nan", "pinf", "ninf"}[s.rng.Intn(3)])}, 0
	case c == "nanfin":
		o.set(s.rng, []interface{}{v("fin")})
		o.alt, o.n = []interface{}{v("nan"), v("fin")}, 0
	default:
		o.set(s.rng, []interface{}{v(c)})
	}
}

func (s *nfSUT) Step(raw json.RawMessage, target int, replay func() interface{}) bool {
	var a nfAct
	if err := json.Unmarshal(raw, &a); err != nil {
		fatal(err)
	}
	if s.infos[target] == nil {
		s.infos[target] = &nfInfo{}
		if err := json.Unmarshal(s.g.Info[target], s.infos[target]); err != nil {
			fatal(err)
		}
	}
	in := s.infos[target]
	c25 := []string{"C25"}
	bad := func(what string, d interface{}) bool {
		mismatch(c25, what, rec{"detail": d, "classes": fmt.Sprint(s.c)}, replay())
		return false
	}
	switch a.Op {
	case "reg":
		sl := nfSlots[a.S]
		s.objs[a.S] = newObj(s.rng, sl[1], sl[2])
		unit := units.None
		if a.S != 5 {
			s.give(a.S, a.C)
		}
		m := &mreg{o: s.objs[a.S], path: s.path(a.S), unit: unit, desc: "d"}
		if err := tricorder.RegisterMetric(m.path, m.o.metric(), unit, m.desc); err != nil {
			return bad("registration failed", err.Error())
		}
		if a.S == 5 {
			s.give(a.S, a.C)
		}
		s.regs[m.path] = m
	case "unreg":
		tricorder.UnregisterPath(s.path(a.S))
		delete(s.regs, s.path(a.S))
		s.objs[a.S] = nil
		s.c[a.S] = ""
	case "set":
		s.give(a.S, a.C)
	}
	for _, d := range []string{"", "x", "y"} {
		q := s.base
		if d != "" {
			q += "/" + d
		}
		for _, iface := range []string{"read", "rpc-list", "json-list", "text"} {
			var l []*metObs
			var err error
			if p := catch(func() { l, err = listMetrics(q, iface, s.regs) }); p != nil {
				return bad("listing by "+iface+" panics", fmt.Sprint(p))
			}
			if err != nil {
				// text may show a fickle value that is not finite
				if iface == "text" && (s.c[2] == "finnan" || s.c[6] == "finnan" || s.c[4] != "fin" && s.c[4] != "" || s.c[5] == "nan") {
					continue
				}
				return bad("listing by "+iface+" is unreadable", err.Error())
			}
			got := map[string]*metObs{}
			for _, o := range l {
				if got[o.Path] != nil {
					return bad("twice in the listing by "+iface, o.Path)
				}
				got[o.Path] = o
			}
			for _, i := range in.Must[d] {
				o := got[s.path(i)]
				if o == nil {
					return bad("not in the listing by "+iface, rec{"missing": s.path(i), "of": q})
				}
				if s.objs[i].w != "dist" {
					if w := s.objs[i].want(); strings.Join(w, "|") != strings.Join(o.Vals, "|") {
						return bad("value by "+iface, rec{"got": o.Vals, "want": w})
					}
				}
			}
			may := map[string]bool{}
			for _, i := range in.May[d] {
				may[s.path(i)] = true
			}
			for p, o := range got {
				if !may[p] {
					return bad("in the listing by "+iface, rec{"extra": p, "vals": o.Vals, "of": q})
				}
			}
		}
	}
	return true
}

// ---- recorded histories for MetricsTrace ----

type mtrace struct {
	rng    *rand.Rand
	base   string
	ev     []rec
	objs   []*mobj
	objG   []int
	regs   map[string]*mreg
	groups []*tricorder.Group
	cnt    []int
	pend   [][]func()
	names  []string
	times  map[int64]int
}

const mEpoch = 1500000000

// stamp of the n-th update of a group, to the nanosecond
func mStamp(g, n int) time.Time {
	return time.Unix(mEpoch+int64(g)*1000000+int64(n), int64(n*7919+g)%1000000000)
}

func (t *mtrace) log(r rec) { t.ev = append(t.ev, r) }

func (t *mtrace) comps(path string) ([]string, bool) {
	if path != t.base && !strings.HasPrefix(path, t.base+"/") {
		return nil, false
	}
	s := strings.TrimPrefix(path[len(t.base):], "/")
	if s == "" {
		return []string{}, true
	}
	return strings.Split(s, "/"), true
}

func strs(l []string) []string {
	if l == nil {
		return []string{}
	}
	return l
}

func newMtrace(rng *rand.Rand, base string) *mtrace {
	t := &mtrace{rng: rng, base: base, regs: map[string]*mreg{}, cnt: make([]int, 4), pend: make([][]func(), 4)}
	for _, i := range rng.Perm(len(mtNames))[:3] {
		t.names = append(t.names, mtNames[i])
	}
	t.groups = []*tricorder.Group{nil}
	for g := 1; g <= 3; g++ {
		g := g
		gr := tricorder.NewGroup()
		gr.RegisterUpdateFunc(func() time.Time {
			for _, f := range t.pend[g] {
				f()
			}
			t.pend[g] = nil
			t.cnt[g]++
			return mStamp(g, t.cnt[g])
		})
		t.groups = append(t.groups, gr)
	}
	return t
}

var mtNames = []string{"a", "b", "proc", "with space", "x<y", "q\"uote", "日本", "&amp;", "a.b", "-", "UPPER", "percent%41", "plus+", "hash#", "quest?", "semi;colon", "'", "0", "long" + strings.Repeat("g", 120)}

func (t *mtrace) randPath() []string {
	// two levels of directories and leaves
	p := []string{}
	for n := t.rng.Intn(3); n > 0; n-- {
		p = append(p, "d"+t.names[t.rng.Intn(2)])
	}
	return append(p, "m"+t.names[t.rng.Intn(len(t.names))]+fmt.Sprint(t.rng.Intn(2)))
}

func (t *mtrace) abs(p []string) string {
	if len(p) == 0 {
		return t.base
	}
	return t.base + "/" + strings.Join(p, "/")
}

func (t *mtrace) newVals(o *mobj) []interface{} {
	fin := t.rng.Intn(6) != 0
	if !fin && o.k.kind.IsFloat() {
		vs := randVals(t.rng, o.k, o.w == "list", true)
		if len(vs) > 0 {
			f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.rng.Intn(3)]
			vs[t.rng.Intn(len(vs))] = convertTo(f, o.k.api).Interface()
		}
		return vs
	}
	return randVals(t.rng, o.k, o.w == "list", true)
}

func (t *mtrace) create() int {
	w := []string{"var", "var", "var", "func", "func", "vfunc", "list", "list", "dist"}[t.rng.Intn(9)]
	ty := goKinds[t.rng.Intn(len(goKinds))].name
	if w != "list" && t.rng.Intn(16) == 0 {
		ty = "*time"
	}
	if t.rng.Intn(3) == 0 {
		ty = []string{"float64", "float32", "user float32"}[t.rng.Intn(3)]
	}
	if w == "dist" {
		ty = ""
	}
	o := newObj(t.rng, w, ty)
	t.objs = append(t.objs, o)
	t.objG = append(t.objG, t.rng.Intn(4))
	o.id = len(t.objs)
	t.log(rec{"op": "new", "o": o.id, "w": w, "t": ty, "v": strs(o.want())})
	return o.id
}

func (t *mtrace) change(o *mobj) {
	if o.w == "dist" {
		// it needs a unit first
		unit, ok := t.unitOf(o)
		if !ok {
			return
		}
		v := []interface{}{t.rng.NormFloat64() * 5, float32(t.rng.Intn(40)), float64(t.rng.Intn(12))}[t.rng.Intn(3)]
		if f, ok := v.(float64); ok && t.rng.Intn(2) == 0 {
			v = f * math.Pow(10, float64(t.rng.Intn(24)-11))
			if t.rng.Intn(4) == 0 {
				v = f * []float64{1e297, 1e-300, 1e-322}[t.rng.Intn(3)]
			}
		}
		if unit == units.Second || unit == units.Millisecond {
			if t.rng.Intn(2) == 0 {
				v = time.Duration(t.rng.Intn(20e9))
			}
		}
		val := []string{}
		if t.rng.Intn(12) == 0 {
			v = math.NaN()
		}
		o.dist.add(v)
		if t.rng.Intn(20) == 0 {
			for n := t.rng.Intn(140000); n > 0; n-- {
				o.dist.add(v)
			}
		}
		if f, ok := v.(float64); ok && f != f || len(o.cur) > 0 {
			o.cur = []interface{}{math.NaN()}
			val = o.want()
		}
		t.log(rec{"op": "set", "o": o.id, "v": val, "alt": false})
		return
	}
	if (o.w == "func" || o.w == "vfunc") && o.k.kind.IsFloat() && t.rng.Intn(6) == 0 {
		o.set(t.rng, randVals(t.rng, o.k, false, true))
		o.alt, o.n = []interface{}{o.cur[0], convertTo(math.NaN(), o.k.api).Interface()}, t.rng.Intn(2)
		t.log(rec{"op": "set", "o": o.id, "v": strs(o.want()), "alt": true})
		return
	}
	vs := t.newVals(o)
	g := t.objG[o.id-1]
	if o.w != "list" && g > 0 && t.rng.Intn(3) == 0 {
		t.pend[g] = append(t.pend[g], func() { o.set(t.rng, vs) })
		w := []string{}
		for _, v := range vs {
			w = append(w, canon(v))
		}
		t.log(rec{"op": "pend", "g": g, "o": o.id, "v": w})
		return
	}
	o.set(t.rng, vs)
	t.log(rec{"op": "set", "o": o.id, "v": strs(o.want()), "alt": false})
}

func (t *mtrace) unitOf(o *mobj) (units.Unit, bool) {
	for _, m := range t.regs {
		if m.o == o {
			return m.unit, true
		}
	}
	return "", false
}

func (t *mtrace) register() {
	p := t.randPath()
	var o *mobj
	if len(t.objs) > 0 && t.rng.Intn(4) == 0 {
		o = t.objs[t.rng.Intn(len(t.objs))]
	} else {
		o = t.objs[t.create()-1]
	}
	if len(t.regs) > 0 && t.rng.Intn(8) == 0 {
		// where something is already, perhaps the same thing again
		ks := t.paths()
		m := t.regs[ks[t.rng.Intn(len(ks))]]
		p, _ = t.comps(m.path)
		if t.rng.Intn(2) == 0 {
			o = m.o
		}
	}
	g := t.objG[o.id-1]
	u := mUnits[t.rng.Intn(len(mUnits))]
	if o.w == "dist" {
		if o.fixed {
			u = o.unit
		}
		o.fixed, o.unit = true, u
	}
	d := mDescs[t.rng.Intn(len(mDescs))]
	var err error
	res := ""
	if pn := catch(func() { err = place(t.rng, t.base, strings.Join(p, "/"), o.metric(), t.groups[g], u, d) }); pn != nil {
		res = "panic"
	} else {
		res = errName(err)
	}
	if res == "ok" {
		m := &mreg{o: o, path: t.abs(p), unit: u, desc: d, g: g}
		t.regs[m.path] = m
	}
	t.log(rec{"op": "reg", "p": p, "o": o.id, "u": string(u), "d": d, "g": g, "r": res})
}

var refusable = [][2]string{{"nil", ""}, {"value", "int64"}, {"value", "string"}, {"value", "time"}, {"nilptr", "float64"}, {"nilptr", "*time"}, {"nilfunc", "int"}, {"args", "bool"},
	{"var", "complex128"}, {"var", "struct"}, {"var", "user time"}, {"var", "[]int64"}, {"var", "**time"}, {"var", "*int64"}, {"func", "map"}, {"func", "error"}, {"func", "[]string"}, {"func", "interface"},
	{"niltype", "List"}, {"niltype", "Cumulative"}, {"niltype", "NonCumulative"}, {"value", "List"}, {"res0", "int64"}, {"res2", "int64"}, {"vargs", "uint8"}}

func (t *mtrace) refuse() {
	p := t.randPath()
	x := refusable[t.rng.Intn(len(refusable))]
	spec := refusedSpec(t.rng, x[0], x[1])
	var err error
	res := ""
	g := t.groups[t.rng.Intn(4)]
	if pn := catch(func() { err = place(t.rng, t.base, strings.Join(p, "/"), spec, g, units.None, "refused") }); pn != nil {
		res = "panic"
	} else {
		res = errName(err)
	}
	t.log(rec{"op": "refuse", "p": p, "w": x[0], "t": x[1], "r": res})
}

func (t *mtrace) unregister() {
	p := t.randPath()
	if t.rng.Intn(2) == 0 && len(t.regs) > 0 {
		ks := t.paths()
		p, _ = t.comps(ks[t.rng.Intn(len(ks))])
	}
	if t.rng.Intn(4) == 0 && len(p) > 1 {
		p = p[:len(p)-1]
	}
	tricorder.UnregisterPath(t.abs(p))
	for _, k := range t.paths() {
		if k == t.abs(p) || strings.HasPrefix(k, t.abs(p)+"/") {
			delete(t.regs, k)
		}
	}
	t.log(rec{"op": "unreg", "p": p})
}

func (t *mtrace) paths() []string {
	r := []string{}
	for k := range t.regs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// entry turns what an interface said into the terms of the specification.
func (t *mtrace) entry(o *metObs, before, after time.Time) (rec, error) {
	p, ok := t.comps(o.Path)
	if !ok {
		return nil, fmt.Errorf("path %q", o.Path)
	}
	e := rec{"p": p, "m": o.meta, "k": string(o.Kind), "s": string(o.Sub), "b": o.Bits, "gt": o.GoType, "u": o.Unit, "d": o.Desc, "v": strs(o.Vals), "x": "", "id": o.Gid, "ts": "", "n": 0, "now": false}
	if o.Dist != nil {
		e["v"] = []string{distFull(o.Dist)}
		e["x"] = distText(o.Dist)
	} else if o.Kind == types.Dist {
		e["x"] = o.Vals[0]
		e["v"] = []string{""}
	}
	if o.meta {
		e["ts"] = canon(o.TS)
		// wall clock times of before, after have a monotonic part; strip it
		e["now"] = !o.TS.Before(before.Round(0)) && !o.TS.After(after.Round(0))
		for g := 1; g <= 3; g++ {
			d := o.TS.Unix() - mEpoch - int64(g)*1000000
			if d >= 0 && d < 1000000 && mStamp(g, int(d)).Equal(o.TS) {
				e["n"] = int(d)
			}
		}
	}
	return e, nil
}

func (t *mtrace) observe() {
	ifs := []string{"read", "rpc-list", "json-list", "text", "rpc-get", "json-get", "text-get", "html", "html"}
	i := ifs[t.rng.Intn(len(ifs))]
	var q []string
	get := strings.HasSuffix(i, "-get")
	ks := t.paths()
	if len(ks) > 0 && t.rng.Intn(8) != 0 {
		q, _ = t.comps(ks[t.rng.Intn(len(ks))])
	} else {
		q = t.randPath()
	}
	if !get {
		q = q[:t.rng.Intn(len(q)+1)]
		if m := t.regs[t.abs(q)]; m != nil && i == "text" {
			get, i = true, "text-get"
		}
	}
	if get {
		// the single metric is unspecified if it is not finite
		if m := t.regs[t.abs(q)]; m != nil && (m.o.alt != nil || unfinite(m.o.want())) {
			return
		}
		// nor does a directory have a value
		for _, k := range ks {
			if strings.HasPrefix(k, t.abs(q)+"/") {
				return
			}
		}
	}
	path := t.abs(q)
	r := rec{"op": "obs", "i": strings.TrimSuffix(i, "-get"), "q": append([]string{}, q...), "get": get, "err": "", "es": []rec{}, "links": [][]string{}}
	if i == "rpc-get" || i == "json-get" {
		r["i"] = i
	}
	if i == "html" {
		t.observeHTML(path, r)
		t.log(r)
		return
	}
	before := time.Now()
	var l []*metObs
	var err error
	if p := catch(func() {
		if get {
			var o *metObs
			o, err = getMetric(path, strings.Replace(i, "text-get", "text", 1), t.regs[path])
			if err == nil {
				l = []*metObs{o}
			}
		} else {
			l, err = listMetrics(path, i, t.regs)
		}
	}); p != nil {
		err = fmt.Errorf("panic: %v", p)
	}
	after := time.Now()
	es := []rec{}
	for _, o := range l {
		if get && i == "text-get" {
			o.Path = path
		}
		e, err1 := t.entry(o, before, after)
		if err1 != nil {
			err = err1
			break
		}
		es = append(es, e)
	}
	switch {
	case err == errMissing:
		r["err"] = "missing"
	case err != nil:
		r["err"] = err.Error()
		if i == "text" && t.fickle() {
			return // may show anything
		}
	default:
		r["es"] = es
	}
	t.log(r)
}

func (t *mtrace) fickle() bool {
	for _, m := range t.regs {
		if m.o.alt != nil || unfinite(m.o.want()) {
			return true
		}
	}
	return false
}

func unfinite(vs []string) bool {
	for _, v := range vs {
		if v == "fNaN" || v == "f+Inf" || v == "f-Inf" {
			return true
		}
	}
	return false
}

func (t *mtrace) observeHTML(path string, r rec) {
	w := httpGetF(reqURI("/metrics", path, ""), nil)
	page := w.Body.String()
	if page == "Path does not exist." {
		r["err"] = "missing"
		return
	}
	if w.Code != 200 {
		r["err"] = fmt.Sprintf("status %d", w.Code)
		return
	}
	es, links := []rec{}, [][]string{}
	for _, k := range t.paths() {
		if k != path && !(strings.HasPrefix(k, path+"/") && !strings.Contains(k[len(path)+1:], "/")) {
			continue
		}
		m := t.regs[k]
		v, par, items, err := htmlOf(page, k)
		if err == errMissing {
			continue
		}
		if err != nil {
			r["err"] = err.Error()
			return
		}
		p, _ := t.comps(k)
		e := rec{"p": p, "hd": strings.Contains(par, m.desc), "hu": m.unit == units.None || m.unit == units.Unknown || strings.Contains(par, string(m.unit)), "hv": false, "v": []string{}}
		kind, el := m.o.kinds()
		if kind != types.List {
			el, items = kind, []string{v}
		}
		if m.o.alt == nil && (el == types.Bool || el == types.String || el.IsFloat()) {
			vs := []string{}
			for _, it := range items {
				x := it
				if it == "NaN" || it == "+Inf" || it == "-Inf" {
					x = "f" + it
				} else if o, err := obsOfText(it, el, "", m.unit); err == nil {
					x = o.Vals[0]
				}
				vs = append(vs, x)
			}
			e["hv"], e["v"] = true, vs
		}
		es = append(es, e)
	}
	base, _ := url.Parse("http://host" + reqURI("/metrics", path, ""))
	for _, m := range reLink.FindAllStringSubmatch(page, -1) {
		u, err := base.Parse(htmlUnesc(m[1]))
		if err != nil || !strings.HasPrefix(u.Path, "/metrics") {
			r["err"] = fmt.Sprintf("link %q", m[1])
			return
		}
		p, ok := t.comps(u.Path[len("/metrics"):])
		if !ok || htmlUnesc(m[2]) != t.abs(p) {
			r["err"] = fmt.Sprintf("link %q", m[0])
			return
		}
		links = append(links, p)
	}
	r["es"], r["links"] = es, links
}

func init() {
	commands["nonfinite-mbt"] = func() {
		g := loadGraph(*fGraph)
		s := &nfSUT{g: g, infos: make([]*nfInfo, len(g.States))}
		tour(g, s, newRand(*fSeed+int64(*fShard)*7907, "nonfinite"), *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
	commands["metrics-trace"] = func() {
		tr := newTrace()
		defer tr.close()
		for i := 0; i < *fN; i++ {
			rng := newRand((*fSeed*1000003+int64(i))*64+int64(*fShard), "metrics")
			t := newMtrace(rng, fmt.Sprintf("/mt%d/%d", *fShard, i))
			guard([]string{"C11", "C12", "C25", "C14"}, "metrics history", func() interface{} { return t.ev })
			steps := 10 + rng.Intn(*fMaxLen)
			for s := 0; s < steps; s++ {
				switch x := rng.Intn(20); {
				case x < 4:
					t.register()
				case x < 5:
					t.refuse()
				case x < 6 && rng.Intn(3) == 0:
					t.unregister()
				case x < 11 && len(t.objs) > 0:
					t.change(t.objs[rng.Intn(len(t.objs))])
				default:
					t.observe()
				}
			}
			unguard()
			tr.put(t.ev)
			count("histories", 1)
			count("events", len(t.ev))
			tricorder.UnregisterPath(t.base)
		}
	}
	_ = messages.ErrMetricNotFound
}
