package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// anyDist is a distribution of either kind.
type anyDist struct {
	c *tricorder.CumulativeDistribution
	n *tricorder.NonCumulativeDistribution
}

func newAnyDist(b *tricorder.Bucketer, kind string) anyDist {
	if kind == "c" {
		return anyDist{c: b.NewCumulativeDistribution()}
	}
	return anyDist{n: b.NewNonCumulativeDistribution()}
}

func (d anyDist) metric() interface{} {
	if d.c != nil {
		return d.c
	}
	return d.n
}

func (d anyDist) add(v interface{}) {
	if d.c != nil {
		d.c.Add(v)
	} else {
		d.n.Add(v)
	}
}

// embed maps the integers of the specification to floats.
type embed struct {
	scale, off float64
	ranks      []float64 // rank mode: 1.. -> float
}

func (e *embed) to(v int) float64 {
	if e.ranks != nil {
		return e.ranks[v-1]
	}
	return float64(v)*e.scale + e.off
}

const noInt = -99999999

// from: the integer of x, or noInt.
func (e *embed) from(x float64) int {
	if e.ranks != nil {
		i := sort.SearchFloat64s(e.ranks, x)
		if i < len(e.ranks) && e.ranks[i] == x {
			return i + 1
		}
		return noInt
	}
	v := (x - e.off) / e.scale
	if math.Abs(v) < 1e9 && v == math.Trunc(v) {
		return int(v)
	}
	return noInt
}

// fromN: the integer that is the sum of n embedded integers giving x.
func (e *embed) fromN(x float64, n int) int {
	if n == 0 {
		if x == 0 {
			return 0
		}
		return noInt
	}
	v := (x - float64(n)*e.off) / e.scale
	if math.Abs(v) < 2e9 && v == math.Trunc(v) {
		return int(v)
	}
	return noInt
}

var embeds = []embed{
	{1, 0, nil}, {0.125, 0, nil}, {1024, 0, nil}, {1 << 30, 0, nil}, {1.0 / (1 << 20), 0, nil},
	{1, 1000000, nil}, {1, -5000, nil}, {0.25, -64, nil}, {16, 65536, nil}, {0.5, 3, nil},
}

// form makes the value to pass for x; ok is false if x has no such form.
func formOf(form string, x float64, unit units.Unit, rng *rand.Rand) (interface{}, bool) {
	switch form {
	case "float":
		if x == 0 && rng.Intn(2) == 0 {
			x = math.Copysign(0, -1) // the same number
		}
		if float64(float32(x)) == x && rng.Intn(2) == 0 {
			return float32(x), true
		}
		return x, true
	case "dur":
		f := float64(time.Second)
		if unit == units.Millisecond {
			f = float64(time.Millisecond)
		}
		d := x * f
		if d != math.Trunc(d) || math.Abs(d) > 1<<52 {
			return nil, false
		}
		return time.Duration(d), true
	case "bad":
		bad := []interface{}{int(x), int64(x), uint(3), "3.5", nil, true, time.Now(), &x, []float64{x}, int32(7), time.Hour.String(), complex(x, 0)}
		return bad[rng.Intn(len(bad))], true
	}
	fatal("form", form)
	return nil, false
}

// window of time in which an operation ran.
type window struct{ a, b time.Time }

// distObs is one reading of a distribution.
type distObs struct {
	d    *messages.Distribution
	unit units.Unit
	ts   time.Time
	gid  int
}

func fromMetricDist(m *messages.Metric) (*distObs, error) {
	if m.Kind != types.Dist {
		return nil, fmt.Errorf("kind %v", m.Kind)
	}
	d, ok := m.Value.(*messages.Distribution)
	if !ok {
		return nil, fmt.Errorf("value is a %T", m.Value)
	}
	ts, ok := m.TimeStamp.(time.Time)
	if !ok {
		return nil, fmt.Errorf("timestamp is a %T", m.TimeStamp)
	}
	return &distObs{d, m.Unit, ts, m.GroupId}, nil
}

func parseJSONTime(s string) (time.Time, error) {
	i := strings.Index(s, ".")
	if i < 0 || len(s)-i != 10 {
		return time.Time{}, fmt.Errorf("timestamp %q", s)
	}
	var sec, ns int64
	if _, err := fmt.Sscanf(s[:i]+" "+s[i+1:], "%d %d", &sec, &ns); err != nil {
		return time.Time{}, err
	}
	return time.Unix(sec, ns), nil
}

var distIfaces = []string{"read", "rpc-list", "rpc-get", "json-list", "json-get"}

func readDist(path, iface string) (*distObs, error) {
	one := func(l messages.MetricList) (*distObs, error) {
		if len(l) != 1 {
			return nil, fmt.Errorf("%d metrics", len(l))
		}
		return fromMetricDist(l[0])
	}
	switch iface {
	case "read":
		return one(tricorder.ReadMyMetrics(path))
	case "rpc-list":
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		return one(l)
	case "rpc-get":
		m, err := rpcGet(path)
		if err != nil {
			return nil, err
		}
		return fromMetricDist(m)
	}
	q := ""
	if iface == "json-get" {
		q = "singleton=true"
	}
	w := httpGetF(reqURI("/metricsapi", path, q), nil)
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d", w.Code)
	}
	type jm struct {
		Kind      string
		Unit      string
		Value     *messages.Distribution
		Timestamp string
		GroupId   int
	}
	var m jm
	if q == "" {
		var l []jm
		if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
			return nil, err
		}
		if len(l) != 1 {
			return nil, fmt.Errorf("%d metrics", len(l))
		}
		m = l[0]
	} else if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil {
		return nil, err
	}
	if m.Kind != string(types.Dist) || m.Value == nil {
		return nil, fmt.Errorf("kind %q", m.Kind)
	}
	ts, err := parseJSONTime(m.Timestamp)
	if err != nil {
		return nil, err
	}
	return &distObs{m.Value, units.Unit(m.Unit), ts, m.GroupId}, nil
}

// snap turns a reading into the terms of the specification.
func (e *embed) snap(o *distObs, wins map[int]window) rec {
	d := o.d
	hs := e.ranks == nil
	r := rec{"op": "Snap", "n": int(d.Count), "hs": hs, "gen": int(d.Generation), "nc": d.IsNotCumulative, "unit": string(o.unit)}
	zero := func(x float64) int {
		if d.Count == 0 {
			if x == 0 {
				return 0
			}
			return noInt
		}
		return e.from(x)
	}
	r["min"], r["max"] = zero(d.Min), zero(d.Max)
	n := int(d.Count)
	r["sum"], r["avgn"] = 0, 0
	if hs {
		r["sum"] = e.fromN(d.Sum, n)
		// the average is rounded, so that average times n is only nearly the sum
		s := d.Average * float64(n)
		if n == 0 {
			s = d.Average
		}
		if math.Abs(s-d.Sum) <= 1e-9*(math.Abs(d.Sum)+e.scale*float64(n)) {
			s = d.Sum
		}
		r["avgn"] = e.fromN(s, n)
	}
	cs, ends := []int{}, []int{}
	for i, rg := range d.Ranges {
		cs = append(cs, int(rg.Count))
		if i+1 < len(d.Ranges) {
			up := e.from(rg.Upper)
			if d.Ranges[i+1].Lower != rg.Upper {
				up = noInt
			}
			ends = append(ends, up)
		}
	}
	r["cs"], r["ends"] = cs, ends
	// the median, with some room for rounding
	r["hm"] = true
	if hs {
		m := (d.Median - e.off) / e.scale * 8
		if n == 0 {
			m = d.Median
		}
		tol := 1e-6 + 1e-12*math.Abs(e.off/e.scale)
		if math.IsNaN(m) || math.Abs(m) > 2e9 {
			m = 2e9
		}
		r["mf"], r["mc"] = int(math.Floor(m+tol)), int(math.Ceil(m-tol))
	} else {
		inf := math.IsInf(d.Min, 0) || math.IsInf(d.Max, 0) || math.Abs(d.Max) > 1e300 || math.Abs(d.Min) > 1e300
		// the average of one or two values suffers from what is left of
		// much larger ones that were removed
		r["hm"] = !inf && n > 2
		r["mf"], r["mc"] = 0, 0
		if !inf && n > 0 {
			tol := 1e-9*math.Max(math.Abs(d.Min), math.Abs(d.Max)) + 1e-300
			lo, hi := 0, len(e.ranks)+1
			for i, x := range e.ranks {
				if x <= d.Median+tol {
					lo = i + 1
				}
				if x >= d.Median-tol && i+1 < hi {
					hi = i + 1
				}
			}
			r["mf"], r["mc"] = 8*lo, 8*hi
		}
	}
	ts := []int{}
	for i, w := range wins {
		if !o.ts.Before(w.a.Round(0)) && !o.ts.After(w.b.Round(0)) {
			ts = append(ts, i)
		}
	}
	sort.Ints(ts)
	r["ts"] = ts
	return r
}

var distProps = []string{"C15", "C16", "C17", "C18", "C19"}

// ---- replay of the state graph ----

type distInfo struct {
	N, Sum, Min, Max int
	Cs               []int
	Med              []int
	Kind, Unit       string
}

type distAct struct {
	Op, Unit, Form, Res string
	V, O                int
	Ch                  bool
}

type distSUT struct {
	g     *Graph
	em    embed
	d     anyDist
	paths []string
	ends  []int
	gen   int
	last  window
	rng   *rand.Rand
	runs  int
	regs  int
	seen  map[string]bool
}

var distEnds = []int{0, 8, 10}

func (s *distSUT) Reset(init int, rng *rand.Rand) bool {
	for _, p := range s.paths {
		tricorder.UnregisterPath(p)
	}
	var inf distInfo
	json.Unmarshal(s.g.Info[init], &inf)
	s.rng = rng
	s.paths = nil
	s.runs++
	s.em = embeds[rng.Intn(len(embeds))]
	if rng.Intn(3) == 0 {
		s.em = embeds[0]
	}
	var eps []float64
	for _, e := range distEnds {
		eps = append(eps, s.em.to(e))
	}
	s.last.a = time.Now()
	s.d = newAnyDist(tricorder.NewArbitraryBucketer(eps...), inf.Kind)
	s.last.b = time.Now()
	s.gen = 0
	return true
}

func (s *distSUT) Step(raw json.RawMessage, target int, replay func() interface{}) bool {
	var a distAct
	var inf distInfo
	json.Unmarshal(raw, &a)
	json.Unmarshal(s.g.Info[target], &inf)
	guard([]string{"C16", "C17", "C19"}, a.Op, replay)
	defer unguard()
	rep := func() interface{} {
		return map[string]interface{}{"scale": s.em.scale, "offset": s.em.off, "ends": distEnds, "kind": inf.Kind, "steps": replay()}
	}
	bad := func(props []string, what string, detail interface{}) bool {
		mismatch(props, what, detail, rep())
		return false
	}
	if a.Op == "Register" {
		s.regs++
		p := fmt.Sprintf("/dist/%d-%d", s.runs, s.regs)
		err := tricorder.RegisterMetric(p, s.d.metric(), units.Unit(a.Unit), "a distribution")
		if errName(err) != a.Res {
			return bad([]string{"C19"}, fmt.Sprintf("registering with unit %q gives %v, specification says %s", a.Unit, err, a.Res), nil)
		}
		if err == nil {
			if len(s.paths) > 3 {
				tricorder.UnregisterPath(s.paths[0])
				s.paths = s.paths[1:]
			}
			s.paths = append(s.paths, p)
		}
		count("registrations", 1)
	} else {
		unit := units.Unit(inf.Unit)
		mk := func(v int) interface{} {
			x, ok := formOf(a.Form, s.em.to(v), unit, s.rng)
			if !ok {
				x = s.em.to(v)
				if a.Res == "panic" {
					x = time.Duration(v)
				}
			}
			return x
		}
		var v, o interface{} = mk(a.V), nil
		if a.Op == "Update" {
			o = mk(a.O)
			if a.Form == "bad" {
				// one bad value is enough
				switch s.rng.Intn(3) {
				case 0:
					v = s.em.to(a.V)
				case 1:
					o = s.em.to(a.O)
				}
			}
		}
		var w window
		w.a = time.Now()
		p := catch(func() {
			switch a.Op {
			case "Add":
				s.d.add(v)
			case "Update":
				s.d.n.Update(o, v)
			case "Remove":
				s.d.n.Remove(v)
			default:
				fatal(a.Op)
			}
		})
		w.b = time.Now()
		r := "ok"
		if p != nil {
			r = "panic"
		}
		if r != a.Res {
			ps := []string{"C19"}
			if a.Res == "ok" {
				ps = []string{"C15", "C16", "C19"}
			}
			return bad(ps, fmt.Sprintf("%s(%v %v): panic %v, specification says %s", a.Op, o, v, p, a.Res), nil)
		}
		if a.Ch {
			s.gen++
			s.last = w
		}
	}
	if s.d.n != nil && s.rng.Intn(3) == 0 {
		sum, n := s.d.n.Sum(), s.d.n.Count()
		if int(n) != inf.N || s.em.fromN(sum, inf.N) != inf.Sum {
			return bad([]string{"C16"}, "Sum() and Count()", map[string]interface{}{"sum": sum, "count": n, "want": inf})
		}
	}
	if len(s.paths) == 0 {
		return true
	}
	iface := distIfaces[s.rng.Intn(len(distIfaces))]
	if s.rng.Intn(3) > 0 {
		iface = "read"
	}
	ob, err := readDist(s.paths[s.rng.Intn(len(s.paths))], iface)
	if err != nil {
		return bad([]string{"C15", "C16", "C18", "C19"}, "reading by "+iface+": "+err.Error(), nil)
	}
	count("readings", 1)
	sn := s.em.snap(ob, map[int]window{1: s.last})
	det := map[string]interface{}{"got": ob.d, "want": inf, "in spec terms": sn, "by": iface}
	ok := true
	chk := func(good bool, what string, props ...string) {
		if !good {
			ok = false
			if a.Res == "panic" {
				props = append(props, "C19")
			}
			bad(props, what+" after "+a.Op, det)
		}
	}
	chk(fmt.Sprint(sn["ends"]) == fmt.Sprint(distEnds), "endpoints", "C15")
	chk(fmt.Sprint(sn["cs"]) == fmt.Sprint(inf.Cs), "counts of the ranges", "C15", "C16")
	chk(sn["n"] == inf.N, "count", "C16")
	chk(sn["sum"] == inf.Sum, "sum", "C16")
	chk(sn["avgn"] == inf.Sum, "average", "C16")
	chk(sn["min"] == inf.Min, "min", "C16")
	chk(sn["max"] == inf.Max, "max", "C16")
	chk(sn["gen"] == s.gen, "generation", "C16")
	chk(sn["nc"] == (inf.Kind == "n"), "kind", "C16")
	chk(len(sn["ts"].([]int)) == 1, "timestamp", "C16")
	if ok {
		chk(sn["mf"].(int) >= inf.Med[0] && sn["mc"].(int) <= inf.Med[1], "median", "C18")
	}
	if string(ob.unit) != inf.Unit {
		ok = bad([]string{"C19"}, "unit", det)
	}
	return ok
}

func init() {
	commands["dist-mbt"] = func() {
		g := loadGraph(*fGraph)
		rng := newRand(*fSeed, fmt.Sprint("dist", *fShard))
		tour(g, &distSUT{g: g}, rng, *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
}

// ---- recorded traces ----

// distScene is a bucketer with the abstraction of its endpoints.
type distScene struct {
	b    *tricorder.Bucketer
	em   embed
	ends []int
	desc string
}

func exactScene(b *tricorder.Bucketer, desc string, em embed, ends []int) distScene {
	return distScene{b, em, ends, desc}
}

func distScenes(rng *rand.Rand) distScene {
	pow := func(k, n, f int) []int {
		var r []int
		for x, i := f, 0; i < n; i++ {
			r = append(r, x)
			x *= k
		}
		return r
	}
	q := embed{0.25, 0, nil}
	switch rng.Intn(9) {
	case 0:
		return exactScene(tricorder.PowersOfTwo, "PowersOfTwo", q, pow(2, 19, 4))
	case 1:
		return exactScene(tricorder.PowersOfFour, "PowersOfFour", q, pow(4, 10, 4))
	case 2:
		return exactScene(tricorder.PowersOfTen, "PowersOfTen", q, pow(10, 6, 4))
	case 3:
		n := 2 + rng.Intn(30)
		st, inc := rng.Intn(40)-20, 1+rng.Intn(12)
		var e []int
		for i := 0; i < n-1; i++ {
			e = append(e, 4*(st+i*inc))
		}
		return exactScene(tricorder.NewLinearBucketer(n, float64(st), float64(inc)), fmt.Sprint("linear ", n, st, inc), q, e)
	case 4:
		n := 2 + rng.Intn(8)
		k := 2 + rng.Intn(3)
		return exactScene(tricorder.NewExponentialBucketer(n, 3, float64(k)), fmt.Sprint("exponential ", n, 3, k), q, pow(k, n-1, 12))
	case 5:
		k := rng.Intn(3)
		lo := []float64{1, 5, 10}[k]
		e := []int{4, 8, 20, 40, 80, 200, 400, 800, 2000, 4000}[[]int{0, 2, 3}[k]:]
		return exactScene(tricorder.NewGeometricBucketer(lo, 1000), fmt.Sprint("geometric ", lo, " 1000"), q, e)
	}
	em := embeds[rng.Intn(len(embeds))]
	n := 1
	if rng.Intn(4) > 0 {
		n = 1 + rng.Intn(12)
	}
	if rng.Intn(10) == 0 {
		n = 60 + rng.Intn(100)
	}
	set := map[int]bool{}
	for len(set) < n {
		set[rng.Intn(4*n+20)-2*n] = true
	}
	var e []int
	for x := range set {
		e = append(e, x)
	}
	sort.Ints(e)
	var f []float64
	for _, x := range e {
		f = append(f, em.to(x))
	}
	return exactScene(tricorder.NewArbitraryBucketer(f...), fmt.Sprint("arbitrary ", f), em, e)
}

// rankScene has endpoints and values that are any floats; only their order counts.
func rankScene(rng *rand.Rand) distScene {
	var b *tricorder.Bucketer
	var desc string
	switch rng.Intn(8) {
	case 0:
		b, desc = tricorder.NewExponentialBucketer(25, 3, 1.7), "exponential 25 3 1.7"
	case 1:
		b, desc = tricorder.NewGeometricBucketer(0.0001, 1e6), "geometric 0.0001 1e6"
	case 2:
		b, desc = tricorder.NewLinearBucketer(20, 0.1, 0.1), "linear 20 0.1 0.1"
	case 3:
		b, desc = tricorder.NewArbitraryBucketer(-math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1, math.MaxFloat64), "extreme"
	case 4:
		b, desc = tricorder.PowersOfTen, "PowersOfTen"
	case 5:
		b, desc = tricorder.NewExponentialBucketer(100, 1e-30, 3.3), "exponential 100"
	case 6:
		b, desc = tricorder.NewLinearBucketer(7, -1e9, 1e9/3), "linear 7"
	default:
		n := 1 + rng.Intn(20)
		var e []float64
		for i := 0; i < n; i++ {
			e = append(e, (rng.Float64()-0.5)*math.Pow(10, float64(rng.Intn(12)-4)))
		}
		sort.Float64s(e)
		b, desc = tricorder.NewArbitraryBucketer(e...), fmt.Sprint("arbitrary ", e)
	}
	// the endpoints the code reports; what they should be is checked elsewhere
	probe := b.NewCumulativeDistribution()
	tricorder.RegisterMetric("/distprobe", probe, units.None, "")
	ob, err := readDist("/distprobe", "read")
	tricorder.UnregisterPath("/distprobe")
	if err != nil || len(ob.d.Ranges) < 2 {
		return distScene{}
	}
	var e []float64
	for _, r := range ob.d.Ranges[:len(ob.d.Ranges)-1] {
		e = append(e, r.Upper)
	}
	all := map[float64]bool{}
	for _, x := range e {
		all[x] = true
		for i := 0; i < 3; i++ {
			if y := math.Nextafter(x, math.Inf(1)); rng.Intn(2) == 0 {
				all[y] = true
			}
			if y := math.Nextafter(x, math.Inf(-1)); rng.Intn(2) == 0 {
				all[y] = true
			}
		}
	}
	for i := 0; i < 8; i++ {
		x := e[rng.Intn(len(e))]
		all[x*(0.5+rng.Float64())] = true
		all[x+rng.NormFloat64()*math.Abs(x)] = true
	}
	all[0], all[1e308], all[-1e308] = true, true, true
	if rng.Intn(2) == 0 {
		all[math.Inf(1)], all[math.Inf(-1)] = true, true
	}
	var rk []float64
	for x := range all {
		rk = append(rk, x)
	}
	sort.Float64s(rk)
	em := embed{1, 0, rk}
	var ends []int
	for _, x := range e {
		ends = append(ends, em.from(x))
	}
	return distScene{b, em, ends, desc}
}

// value picks a value: at, just below or above an endpoint, or anywhere.
func (s *distScene) value(rng *rand.Rand) int {
	if s.em.ranks != nil {
		if rng.Intn(2) == 0 {
			return s.ends[rng.Intn(len(s.ends))]
		}
		return 1 + rng.Intn(len(s.em.ranks))
	}
	e := s.ends[rng.Intn(len(s.ends))]
	switch rng.Intn(4) {
	case 0:
		return e
	case 1:
		return e - 1
	case 2:
		return e + 1
	}
	lo, hi := s.ends[0], s.ends[len(s.ends)-1]
	return lo - 10 + rng.Intn(hi-lo+30)
}

func init() {
	commands["dist-trace"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("disttrace", *fShard))
		tw := newTrace()
		for k := 0; k < *fN; k++ {
			if h := distTrace(rng, fmt.Sprintf("/dt/%d/%d", *fShard, k)); h != nil {
				tw.put(h)
				count("histories", 1)
			}
		}
		tw.close()
	}
}

func distTrace(rng *rand.Rand, base string) rec {
	defer tricorder.UnregisterPath(base)
	sc := distScenes(rng)
	if rng.Intn(3) == 0 {
		if sc = rankScene(rng); sc.b == nil {
			mismatch([]string{"C15"}, "a new distribution has no ranges", nil, nil)
			return nil
		}
	}
	kind := []string{"c", "n", "n"}[rng.Intn(3)]
	wins := map[int]window{}
	var w window
	w.a = time.Now()
	d := newAnyDist(sc.b, kind)
	w.b = time.Now()
	wins[0] = w
	ev := []rec{}
	var paths []string
	unit := []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, units.Celsius, units.Unknown, units.BytePerSecond, "Furlongs"}[rng.Intn(8)]
	vals := []int{}
	panics := rng.Intn(3) == 0
	lastCh := 0
	describe := func() interface{} {
		return rec{"bucketer": sc.desc, "kind": kind, "scale": sc.em.scale, "offset": sc.em.off, "ranks": fmt.Sprint(sc.em.ranks), "ev": ev}
	}
	guard([]string{"C16", "C17", "C19"}, "a sequence of operations on one distribution", describe)
	defer unguard()
	snap := func() bool {
		if len(paths) == 0 {
			return true
		}
		iface := "read"
		if sc.em.ranks == nil && rng.Intn(4) == 0 {
			iface = distIfaces[rng.Intn(len(distIfaces))]
		}
		ob, err := readDist(paths[rng.Intn(len(paths))], iface)
		if err != nil {
			mismatch([]string{"C15", "C16", "C18", "C19"}, "reading by "+iface+": "+err.Error(), nil, describe())
			return false
		}
		// only the windows around the last changes matter
		ws := map[int]window{}
		for _, i := range []int{0, lastCh} {
			ws[i] = wins[i]
		}
		ev = append(ev, sc.em.snap(ob, ws))
		count("readings", 1)
		return true
	}
	reg := func(u units.Unit) {
		p := fmt.Sprintf("%s/%d", base, len(ev))
		err := tricorder.RegisterMetric(p, d.metric(), u, "a distribution")
		ev = append(ev, rec{"op": "Reg", "unit": string(u), "res": errName(err)})
		if err == nil {
			paths = append(paths, p)
		}
	}
	change := func(op, form string, o, v int) bool {
		u := unit
		fv, ok := formOf(form, sc.em.to(v), u, rng)
		if form == "dur" && (sc.em.ranks != nil || !ok) {
			if u == units.Second || u == units.Millisecond {
				form, ok = "float", true
				fv = sc.em.to(v)
			} else {
				fv, ok = time.Duration(rng.Intn(1000)), true
			}
		}
		var fo interface{} = sc.em.to(o)
		if op == "Upd" {
			if f2, ok := formOf(form, sc.em.to(o), u, rng); ok && (form == "bad" || sc.em.ranks == nil && rng.Intn(2) == 0) {
				fo = f2
				if form == "bad" && rng.Intn(2) == 0 {
					fv = sc.em.to(v)
				}
			}
		}
		id := len(ev) + 1
		var w window
		w.a = time.Now()
		p := catch(func() {
			switch op {
			case "Add":
				d.add(fv)
			case "Upd":
				d.n.Update(fo, fv)
			case "Rem":
				d.n.Remove(fv)
			}
		})
		w.b = time.Now()
		r := rec{"op": op, "v": v, "form": form, "res": "ok"}
		if op == "Upd" {
			r["o"] = o
		}
		if p != nil {
			r["res"] = "panic"
		} else {
			wins[id] = w
			lastCh = id
		}
		ev = append(ev, r)
		return p == nil
	}
	// many adds or removes of the same value in a row
	many := func(op string, v, k int) bool {
		x := sc.em.to(v)
		id := len(ev) + 1
		var w window
		p := catch(func() {
			for i := 0; i < k; i++ {
				w.a = time.Now()
				if op == "AddMany" {
					d.add(x)
				} else {
					d.n.Remove(x)
				}
			}
		})
		w.b = time.Now()
		r := rec{"op": op, "v": v, "num": k, "form": "float", "res": "ok"}
		if p != nil {
			r["res"] = "panic"
		} else {
			wins[id] = w
			lastCh = id
		}
		ev = append(ev, r)
		return p == nil
	}
	total := 0 // bounds the sum, for TLC has 32 bits
	v0 := sc.ends[0]
	// before a unit is assigned
	if panics && rng.Intn(2) == 0 {
		form := []string{"float", "dur", "bad"}[rng.Intn(3)]
		change("Add", form, v0, sc.ends[0])
		if kind == "n" {
			change("Upd", form, sc.ends[0], sc.ends[0])
			change("Rem", form, v0, sc.ends[0])
			ev = append(ev, rec{"op": "Tot", "n": int(d.n.Count()), "hs": true, "sum": int(d.n.Sum())})
		}
	}
	reg(unit)
	if !snap() {
		return nil
	}
	mode := rng.Intn(4) // adding much, mixed, draining
	nops := 30 + rng.Intn(60)
	if rng.Intn(6) == 0 {
		nops = 250
	}
	for i := 0; i < nops; i++ {
		if rng.Intn(20) == 0 {
			mode = rng.Intn(4)
		}
		if rng.Intn(25) == 0 {
			u := unit
			if rng.Intn(2) == 0 {
				u = []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, units.Unknown}[rng.Intn(5)]
			}
			reg(u)
		}
		if panics && rng.Intn(12) == 0 {
			if !snap() {
				return nil
			}
			form := "bad"
			if unit != units.Second && unit != units.Millisecond && rng.Intn(2) == 0 {
				form = "dur"
			}
			v := sc.value(rng)
			switch k := rng.Intn(3); {
			case k == 0 || kind == "c":
				change("Add", form, v0, v)
			case k == 1:
				o := v
				if len(vals) > 0 {
					o = vals[rng.Intn(len(vals))]
				}
				change("Upd", form, o, v)
			default:
				change("Rem", form, v0, v)
			}
			if !snap() {
				return nil
			}
			continue
		}
		form := "float"
		if (unit == units.Second || unit == units.Millisecond) && rng.Intn(3) == 0 {
			form = "dur"
		}
		k := rng.Intn(10)
		if rng.Intn(40) == 0 {
			v := sc.value(rng)
			if len(vals) > 0 && rng.Intn(2) == 0 {
				v = vals[rng.Intn(len(vals))]
			}
			m := []int{40, 300, 1100, 33000, 66000, 140000}[rng.Intn(6)]
			a := max(v, -v)
			if sc.em.ranks != nil || total+a*m < 500000000 && len(vals)+m < 400000 {
				total += a * m
				if !many("AddMany", v, m) || !snap() {
					return nil
				}
				cnt := m
				for ; m > 0; m-- {
					vals = append(vals, v)
				}
				if kind == "n" && rng.Intn(2) == 0 {
					if rng.Intn(2) == 0 {
						cnt -= 1 + rng.Intn(20)
					}
					if !many("RemMany", v, cnt) {
						return nil
					}
					vals = vals[:len(vals)-cnt]
				}
				if !snap() {
					return nil
				}
			}
			continue
		}
		switch {
		case kind == "c" || len(vals) == 0 || mode < 2 && k < 6 || mode == 2 && k < 4 || mode == 3 && k < 1:
			if kind == "n" && len(vals) == 0 && panics && rng.Intn(2) == 0 {
				// nothing to update or remove
				if rng.Intn(2) == 0 {
					change("Upd", form, sc.value(rng), sc.value(rng))
				} else {
					change("Rem", form, v0, sc.value(rng))
				}
			}
			v := sc.value(rng)
			if len(vals) > 0 && rng.Intn(4) == 0 {
				v = vals[rng.Intn(len(vals))]
			}
			if change("Add", form, v0, v) {
				vals = append(vals, v)
			}
		case k < 8 && mode < 3:
			j := rng.Intn(len(vals))
			v := sc.value(rng)
			if change("Upd", form, vals[j], v) {
				vals[j] = v
			}
		default:
			j := rng.Intn(len(vals))
			if change("Rem", form, v0, vals[j]) {
				vals[j] = vals[len(vals)-1]
				vals = vals[:len(vals)-1]
			}
		}
		if kind == "n" && rng.Intn(15) == 0 {
			ev = append(ev, rec{"op": "Tot", "n": int(d.n.Count()), "hs": sc.em.ranks == nil, "sum": sc.em.fromN(d.n.Sum(), len(vals))})
		}
		if kind == "n" && rng.Intn(15) == 0 {
			d.n.UpdateMinMax()
			ob, err := readDist(paths[0], "read")
			if err != nil {
				mismatch([]string{"C16"}, "reading: "+err.Error(), nil, describe())
				return nil
			}
			sn := sc.em.snap(ob, nil)
			ev = append(ev, rec{"op": "MinMax", "min": sn["min"], "max": sn["max"]})
		}
		if rng.Intn(3) > 0 || len(vals) < 4 {
			if !snap() {
				return nil
			}
		}
	}
	if !snap() {
		return nil
	}
	return rec{"kind": kind, "ends": sc.ends, "desc": sc.desc, "scale": fmt.Sprint(sc.em.scale), "off": fmt.Sprint(sc.em.off), "ev": ev}
}
