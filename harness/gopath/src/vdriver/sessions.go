package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifyield"
)

const (
	sessGroups  = 3
	srcPlain    = 4 // a group without update function
	srcDefault  = 5
	srcList     = 6
	srcDist     = 7
	sessSources = 7
)

type sessMetric struct {
	path string
	s    int  // source
	g    int  // tracked group or 0
	cb   bool // gated callback
	mod  int  // see sessMod
}

type sessReq struct {
	id      int
	w       []int
	open    chan bool // true: panic
	gate    map[int]bool
	blocked bool
	done    chan struct{}
}

// sessWorld is the registry the session scenarios run on.
type sessWorld struct {
	mu       sync.Mutex
	ev       []rec
	rng      *rand.Rand
	n        int // number of groups
	groups   []*tricorder.Group
	fn       []int
	nextF    int
	nextU    int
	nextR    int
	r0       int // requests before this history
	pages    map[string]*sessDir
	of       []string // all paths of metrics
	nextC    int
	vars     []sessVars
	gateUpd  []bool
	updOpen  []chan bool
	updWait  []int
	meta     map[string]*sessMetric
	dirs     map[string][]*sessDir // groups in order -> directories
	byGoid   map[int64][]*sessReq
	times    map[string]int
	gid      []int
	list     *tricorder.List
	dist     *tricorder.CumulativeDistribution
	spin     int32
	reqs     map[int]*sessReq
	nesting  bool // callbacks make requests
	mutating bool // callbacks change the list and the distribution
}

type sessVars struct {
	a, b int64
	s    string
	cur  int64
	t    time.Time
	pt   *time.Time // changed in place or replaced
	d    time.Duration
	f    float64
	i32  int32
	u    uint
	my   sessInt
	bo   bool
	i    int
	i8   int8
	i16  int16
	u8   uint8
	u16  uint16
	u32  uint32
	u64  uint64
	f32  float32
}

// sessMod tells modulo what a metric shows the version of its group's data,
// 0 if all of it.
func sessMod(v interface{}) int {
	switch v.(type) {
	case *bool, func() bool:
		return 2
	case *int8, func() int8:
		return 100
	case *uint8, func() uint8:
		return 200
	case *int16, *uint16:
		return 30000
	}
	return 0
}

type sessInt int64

type sessDir struct {
	path    string
	flat    bool
	metrics []*sessMetric
}

func (w *sessWorld) log(r rec) {
	w.mu.Lock()
	w.ev = append(w.ev, r)
	w.mu.Unlock()
}

func (w *sessWorld) tIdx(t time.Time) int {
	if t.IsZero() {
		return 0
	}
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000))
	return w.nIdx(n.Add(n, big.NewInt(int64(t.Nanosecond()))).String())
}

// nIdx numbers the times, given as nanoseconds since the epoch.
func (w *sessWorld) nIdx(n string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n == "" {
		return 0
	}
	if i, ok := w.times[n]; ok {
		return i
	}
	i := len(w.times) + 1
	w.times[n] = i
	return i
}

func (w *sessWorld) jiggle() {
	n := int(atomic.LoadInt32(&w.spin))
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// callback is what the callbacks of group g do.
func (w *sessWorld) callback(g int, gated bool) int64 {
	id := goid()
	w.mu.Lock()
	var r *sessReq
	if st := w.byGoid[id]; len(st) > 0 {
		r = st[len(st)-1]
	}
	e := rec{"k": "rd", "r": 0, "g": g}
	if r != nil {
		e["r"] = r.id
	}
	w.ev = append(w.ev, e)
	block := gated && r != nil && r.gate[g]
	n := len(w.ev)
	nest := w.nesting && r != nil && len(w.byGoid[id]) == 1 && n%3 == 0
	if block {
		r.gate[g] = false
		r.blocked = true
	}
	w.mu.Unlock()
	if w.mutating {
		w.list.Change([]int64{int64(id)}, true)
		w.dist.Add(1.0)
	}
	w.jiggle()
	if nest {
		// the callback itself makes a request
		ws := []int{g}
		if id%2 == 0 {
			ws = []int{1 + g%w.n}
		}
		_, run := w.newReq(ws, rand.New(rand.NewSource(int64(n))), false, false)
		run()
	}
	if block {
		p := <-r.open
		w.mu.Lock()
		r.blocked = false
		w.mu.Unlock()
		if p {
			panic("callback panics")
		}
	}
	return atomic.LoadInt64(&w.vars[g].cur)
}

// updateFunc makes a new update function of group g.
func (w *sessWorld) updateFunc(g, f int) func() time.Time {
	return func() time.Time {
		w.mu.Lock()
		w.nextU++
		u := w.nextU
		w.ev = append(w.ev, rec{"k": "us", "g": g, "f": f, "u": u})
		gate := w.gateUpd[g]
		if gate {
			w.updWait[g]++
		}
		w.mu.Unlock()
		if gate {
			<-w.updOpen[g]
		}
		w.jiggle()
		v := &w.vars[g]
		v.a = int64(u)
		w.jiggle()
		v.s = strconv.Itoa(u)
		atomic.StoreInt64(&v.cur, int64(u))
		if v.pt == nil || u%4 == 0 {
			v.pt = new(time.Time)
		}
		*v.pt = time.Unix(int64(u), 0)
		w.jiggle()
		v.t = time.Unix(int64(u), 0)
		v.d = time.Duration(u) * time.Second
		v.f = float64(u)
		w.jiggle()
		v.i32 = int32(u)
		v.u = uint(u)
		v.my = sessInt(u)
		v.bo = u%2 == 1
		v.i8 = int8(u % 100)
		v.u8 = uint8(u % 200)
		v.i16 = int16(u % 30000)
		v.u16 = uint16(u % 30000)
		w.jiggle()
		v.i = u
		v.u32 = uint32(u)
		v.u64 = uint64(u)
		v.f32 = float32(u)
		v.b = int64(u)
		var t time.Time
		switch u % 14 {
		case 0: // the zero time
		case 6: // years of five digits
			t = time.Unix(253402300800+int64(u)<<uint(u%9), int64(u)).UTC()
		case 7: // the year 1
			t = time.Unix(-62135596800+int64(u), 1).In(time.FixedZone("x", 3600*(u%25-12)))
		case 8: // long ago
			t = time.Unix(-62135596800-int64(u)*1000003, int64(u))
		case 3: // the future
			t = time.Now().Add(time.Hour + time.Duration(u)).Round(0)
		case 4:
			t = time.Now()
		case 5: // the distant future
			t = time.Unix(1<<33+int64(u), 1)
		case 1: // earlier than the last
			t = time.Unix(1500000000-int64(u), int64(u))
		case 2:
			t = time.Unix(int64(-u)-5, 999999999)
		default:
			t = time.Unix(1600000000+int64(u), int64(u%1000)*1000003%1000000000)
		}
		ti := w.tIdx(t)
		w.log(rec{"k": "ue", "g": g, "u": u, "t": ti})
		return t
	}
}

func (w *sessWorld) register(g int) {
	w.mu.Lock()
	w.nextF++
	w.nextC++
	f, c := w.nextF, w.nextC
	w.ev = append(w.ev, rec{"k": "rc", "c": c, "g": g, "f": f})
	w.mu.Unlock()
	w.groups[g].RegisterUpdateFunc(w.updateFunc(g, f))
	w.mu.Lock()
	w.fn[g] = f
	w.ev = append(w.ev, rec{"k": "rr", "c": c, "g": g, "f": f})
	w.mu.Unlock()
}

// sessBase makes a world of n groups, with update functions, and no metrics.
func sessBase(rng *rand.Rand, n int) *sessWorld {
	w := &sessWorld{rng: rng, n: n, meta: map[string]*sessMetric{}, dirs: map[string][]*sessDir{},
		byGoid: map[int64][]*sessReq{}, times: map[string]int{}, reqs: map[int]*sessReq{}}
	w.groups = make([]*tricorder.Group, n+1)
	w.fn = make([]int, n+1)
	w.vars = make([]sessVars, n+1)
	w.gateUpd = make([]bool, n+1)
	w.updOpen = make([]chan bool, n+1)
	w.updWait = make([]int, n+1)
	for g := 1; g <= n; g++ {
		w.groups[g] = tricorder.NewGroup()
		w.updOpen[g] = make(chan bool)
		w.register(g)
	}
	return w
}

// registerSomehow registers in a group in one of the possible ways.
func registerSomehow(how int, path string, v interface{}, g *tricorder.Group) error {
	k := strings.LastIndexByte(path, '/')
	if how%2 == 0 {
		k = 1 + strings.IndexByte(path[1:], '/')
	}
	switch how / 2 % 6 {
	case 0:
		return g.RegisterMetric(path, v, units.None, "d")
	case 1, 2:
		d, err := tricorder.RegisterDirectory(path[:k])
		if err != nil {
			return err
		}
		if g == tricorder.DefaultGroup {
			return d.RegisterMetric(path[k:], v, units.None, "d")
		}
		return d.RegisterMetricInGroup(path[k+1:], v, g, units.None, "d")
	case 3, 4:
		d, err := tricorder.RegisterDirectory(path[:k])
		if err != nil {
			return err
		}
		return tricorder.DirectoryGroup{Group: g, Directory: d}.RegisterMetric(path[k+1:], v, units.None, "d")
	}
	if g == tricorder.DefaultGroup {
		return tricorder.RegisterMetric(path, v, units.None, "d")
	}
	return tricorder.RegisterMetricInGroup(path, v, g, units.None, "d")
}

func newSessWorld(rng *rand.Rand) *sessWorld {
	w := sessBase(rng, sessGroups)
	tricorder.UnregisterPath("/proc")
	plain := tricorder.NewGroup()
	w.list = tricorder.NewList([]int64{1}, true)
	w.dist = tricorder.PowersOfTwo.NewCumulativeDistribution()
	var one int64 = 1
	must := func(err error) {
		if err != nil {
			fatal("sessions setup:", err)
		}
	}
	add := func(d *sessDir, path string, v interface{}, s, g int, cb bool) {
		m := &sessMetric{path, s, g, cb, sessMod(v)}
		grp := tricorder.DefaultGroup
		if g > 0 {
			grp = w.groups[g]
		} else if s == srcPlain {
			grp = plain
		}
		must(registerSomehow(len(w.meta), path, v, grp))
		w.meta[path] = m
		d.metrics = append(d.metrics, m)
	}
	for wi, ws := range []string{"1", "2", "3", "12", "21", "13", "31", "23", "32", "123", "321", "213"} {
		for _, kind := range []string{"f", "n", "c", "v", "o", "p"} {
			d := &sessDir{path: "/S/" + kind + ws, flat: kind != "n"}
			for j, gc := range ws {
				g := int(gc - '0')
				pre := fmt.Sprintf("%s/%d", d.path, j+1)
				if kind == "n" {
					pre += "/"
				}
				vr := &w.vars[g]
				switch kind {
				case "f", "n":
					add(d, pre+"a", &vr.a, g, g, false)
					add(d, pre+"b", func() int64 { return w.callback(g, true) }, g, g, true)
					add(d, pre+"c", &vr.s, g, g, false)
					add(d, pre+"d", func() float64 { return float64(w.callback(g, false)) }, g, g, false)
					add(d, pre+"e", &vr.b, g, g, false)
				case "c": // a callback is the first and the last thing read
					add(d, pre+"a", func() uint32 { return uint32(w.callback(g, true)) }, g, g, true)
					add(d, pre+"b", &vr.b, g, g, false)
					add(d, pre+"c", func() string { return strconv.FormatInt(w.callback(g, false), 10) }, g, g, false)
				case "v": // variables only, with other things around
					add(d, pre+"a", &vr.a, g, g, false)
					add(d, pre+"b", &vr.s, g, g, false)
					add(d, pre+"c", &vr.b, g, g, false)
				}
				if kind == "f" || kind == "v" {
					add(d, pre+"f", &vr.pt, g, g, false)
					add(d, pre+"g", &vr.t, g, g, false)
					add(d, pre+"h", &vr.d, g, g, false)
					add(d, pre+"i", &vr.f, g, g, false)
					add(d, pre+"j", &vr.i32, g, g, false)
					add(d, pre+"k", &vr.u, g, g, false)
					add(d, pre+"l", &vr.my, g, g, false)
					add(d, pre+"q", &vr.bo, g, g, false)
					add(d, pre+"r", &vr.f32, g, g, false)
					add(d, pre+"s", func() float32 { return float32(w.callback(g, false)) }, g, g, false)
				}
				if kind == "o" || kind == "p" {
					// any kind may be the first and the last
					all := []interface{}{&vr.pt, &vr.t, &vr.d, &vr.f, &vr.i32, &vr.u, &vr.my, &vr.a, &vr.s,
						func() *time.Time { w.callback(g, false); return vr.pt },
						func() time.Time { return time.Unix(w.callback(g, false), 0) },
						func() time.Duration { return time.Duration(w.callback(g, false)) * time.Second },
						func() float64 { return float64(w.callback(g, false)) },
						func() string { return strconv.FormatInt(w.callback(g, false), 10) },
						&vr.f32, &vr.bo, &vr.i, &vr.i8, &vr.i16, &vr.u8, &vr.u16, &vr.u32, &vr.u64,
						func() bool { return w.callback(g, false)%2 == 1 },
						func() float32 { return float32(w.callback(g, false)) },
						func() int8 { return int8(w.callback(g, false) % 100) },
						func() uint8 { return uint8(w.callback(g, false) % 200) },
						func() uint64 { return uint64(w.callback(g, false)) },
						func() int { return int(w.callback(g, false)) },
					}
					for i := 0; i < 4; i++ {
						k := wi*3 + j*5 + i*3
						if kind == "p" {
							k += 7
						}
						add(d, pre+string(rune('a'+i)), all[k%len(all)], g, g, false)
					}
				}
				if kind == "f" || kind == "c" {
					add(d, pre+"m", func() *time.Time { w.callback(g, false); return vr.pt }, g, g, false)
					add(d, pre+"n", func() time.Duration { return time.Duration(w.callback(g, false)) * time.Second }, g, g, false)
				}
			}
			if kind != "c" {
				add(d, d.path+"/0list", w.list, srcList, 0, false)
				add(d, d.path+"/0dist", w.dist, srcDist, 0, false)
				add(d, d.path+"/0plain", &one, srcPlain, 0, false)
				add(d, d.path+"/0def", &one, srcDefault, 0, false)
				add(d, d.path+"/9list", w.list, srcList, 0, false)
				add(d, d.path+"/9dist", w.dist, srcDist, 0, false)
				add(d, d.path+"/9plain", &one, srcPlain, 0, false)
				add(d, d.path+"/9def", &one, srcDefault, 0, false)
			}
			sort.Slice(d.metrics, func(a, b int) bool { return d.metrics[a].path < d.metrics[b].path })
			w.dirs[ws] = append(w.dirs[ws], d)
		}
	}
	// directories whose page shows some groups, and whose subdirectories hold
	// metrics of all groups
	w.pages = make(map[string]*sessDir)
	for _, ws := range []string{"", "1", "2", "3", "12", "13", "23", "123"} {
		d := &sessDir{path: "/S/h" + ws}
		rest := &sessDir{}
		for j, gc := range ws {
			g := int(gc - '0')
			pre := fmt.Sprintf("%s/%d", d.path, j+1)
			vr := &w.vars[g]
			add(d, pre+"a", &vr.a, g, g, false)
			add(d, pre+"b", func() int64 { return w.callback(g, true) }, g, g, true)
			add(d, pre+"c", &vr.s, g, g, false)
		}
		for g := 1; g <= sessGroups; g++ {
			for _, sub := range []string{"0", "2", "z"} {
				add(rest, fmt.Sprintf("%s/%s/%d", d.path, sub, g), func() float64 { return float64(w.callback(g, false)) }, g, g, false)
				add(rest, fmt.Sprintf("%s/%s/v/%d", d.path, sub, g), &w.vars[g].b, g, g, false)
			}
		}
		w.pages[ws] = d
	}
	w.gid = make([]int, sessSources)
	for i := range w.gid {
		w.gid[i] = -1000 - i
	}
	for p := range w.meta {
		w.of = append(w.of, p)
	}
	sort.Strings(w.of)
	for _, m := range tricorder.ReadMyMetrics("/S") {
		x := w.meta[m.Path]
		if x == nil {
			fatal("sessions setup: metric", m.Path)
		}
		w.gid[x.s-1] = m.GroupId
	}
	w.ev = nil
	return w
}

type sessItem struct {
	S int `json:"s"`
	G int `json:"g"`
	U int `json:"u"`
	T int `json:"t"`
	I int `json:"i"`
	M int `json:"m"`
}

func (w *sessWorld) item(path string, val string, t, i int) (sessItem, error) {
	m := w.meta[path]
	if m == nil {
		return sessItem{}, fmt.Errorf("unknown path %q", path)
	}
	it := sessItem{S: m.s, G: m.g, T: t, I: i, M: m.mod}
	if m.g > 0 {
		u, err := sessVersion(val)
		if err != nil {
			return it, fmt.Errorf("cannot parse %q: %q", path, val)
		}
		it.U = u
	}
	return it, nil
}

var reSpan = regexp.MustCompile(`^(?:(\d+)d ?)?(?:(\d+)h ?)?(?:(\d+)m ?)?(\d+)(?:\.000)?s$`)

// sessVersion reads the version a value stands for.
func sessVersion(val string) (int, error) {
	val = strings.Trim(val, "\"")
	switch val {
	case "false":
		return 0, nil
	case "true":
		return 1, nil
	}
	if x := strings.TrimSuffix(val, ".000000000"); x != val {
		return strconv.Atoi(x)
	}
	if val == "0ns" {
		return 0, nil
	}
	if m := reSpan.FindStringSubmatch(val); m != nil {
		n := 0
		for i, f := range []int{86400, 3600, 60, 1} {
			x, _ := strconv.Atoi(m[i+1])
			n += x * f
		}
		return n, nil
	}
	if strings.HasSuffix(val, "Z") {
		t, err := time.Parse("2006-01-02T15:04:05.999999999Z", val)
		if t.IsZero() {
			return 0, err
		}
		return int(t.Unix()), err
	}
	return strconv.Atoi(strings.ReplaceAll(val, ",", ""))
}

func sessValue(x interface{}) string {
	switch v := x.(type) {
	case time.Time:
		if v.IsZero() {
			return "0"
		}
		return strconv.FormatInt(v.Unix(), 10)
	case time.Duration:
		return strconv.FormatInt(int64(v/time.Second), 10)
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(v), 'f', -1, 64)
	}
	return fmt.Sprint(x)
}

func (w *sessWorld) fromList(l messages.MetricList) (out []sessItem, err error) {
	for _, m := range l {
		val := ""
		if x := w.meta[m.Path]; x != nil && x.g > 0 {
			val = sessValue(m.Value)
		}
		it, err := w.item(m.Path, val, w.tIdx(m.TimeStamp.(time.Time)), m.GroupId)
		if err != nil {
			return nil, err
		}
		out = append(out, it)
	}
	return
}

type jsonMetric struct {
	Path      string          `json:"path"`
	Value     json.RawMessage `json:"value"`
	TimeStamp string          `json:"timestamp"`
	GroupId   int             `json:"groupId"`
}

// secNanos reads a decimal number of seconds as nanoseconds.
func secNanos(s string) (string, error) {
	if s == "-62135596800.000000000" { // the zero time
		return "", nil
	}
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return "", fmt.Errorf("cannot parse %q", s)
	}
	x.Mul(x, big.NewRat(1000000000, 1))
	if !x.IsInt() {
		return "", fmt.Errorf("cannot parse %q", s)
	}
	return x.Num().String(), nil
}

func (w *sessWorld) fromJSON(l []jsonMetric) (out []sessItem, err error) {
	for _, m := range l {
		n, err := secNanos(m.TimeStamp)
		if err != nil {
			return nil, err
		}
		it, err := w.item(m.Path, string(m.Value), w.nIdx(n), m.GroupId)
		if err != nil {
			return nil, err
		}
		out = append(out, it)
	}
	return
}

// failWriter fails (or panics) after some writes.
type failWriter struct {
	*httptest.ResponseRecorder
	left   int
	panics bool
	failed bool
}

func (f *failWriter) Write(b []byte) (int, error) {
	if f.left <= 0 {
		f.failed = true
		if f.panics {
			panic("connection gone")
		}
		return 0, errors.New("connection gone")
	}
	f.left--
	return f.ResponseRecorder.Write(b)
}

func (f *failWriter) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

var sessIfaces = []string{"read", "rpc", "json", "jsongz", "text", "html"}
var sessSingle = []string{"read1", "rpc1", "rpcget", "json1", "jsonget", "text1", "html1"}

var reHTMLItem = regexp.MustCompile(`(?m)(/S/[^ <]*) ([^<\n]*) <span class="parens">\((?:int64|uint64|int32|int16|uint32|float64|string|time|duration)`)

// perform carries out one request. fail >= 0: the writer fails after that
// many writes. Returns what was reported and whether something was made fail.
func (w *sessWorld) perform(iface, path string, fail int, panics bool) (items []sessItem, failed bool, err error) {
	get := func(uri string, hdr string) (*httptest.ResponseRecorder, bool) {
		req := httptest.NewRequest("GET", uri, nil)
		if hdr != "" {
			req.Header.Set("Accept-Encoding", hdr)
		}
		rr := httptest.NewRecorder()
		if fail < 0 {
			http.DefaultServeMux.ServeHTTP(rr, req)
			return rr, false
		}
		fw := &failWriter{ResponseRecorder: rr, left: fail, panics: panics}
		// the server recovers the panics of handlers
		p := catch(func() { http.DefaultServeMux.ServeHTTP(fw, req) })
		return rr, fw.failed || p != nil
	}
	switch iface {
	case "read", "read1":
		items, err = w.fromList(tricorder.ReadMyMetrics(path))
	case "rpc", "rpc1":
		var x interface{}
		if x, err = rpcRaw("MetricsServer.ListMetrics", path); err == nil {
			items, err = w.fromList(*x.(*messages.MetricList))
		}
	case "rpcget":
		var x interface{}
		if x, err = rpcRaw("MetricsServer.GetMetric", path); err == nil {
			items, err = w.fromList(messages.MetricList{x.(*messages.Metric)})
		}
	case "json", "json1", "jsongz":
		hdr := ""
		if iface == "jsongz" {
			hdr = "gzip"
		}
		rr, f := get("/metricsapi"+path, hdr)
		if f {
			return nil, true, nil
		}
		b := rr.Body.Bytes()
		if hdr != "" && rr.Header().Get("Content-Encoding") == "gzip" {
			z, e := gzip.NewReader(bytes.NewReader(b))
			if e != nil {
				return nil, false, e
			}
			if b, err = io.ReadAll(z); err != nil {
				return nil, false, err
			}
		}
		var l []jsonMetric
		if err = json.Unmarshal(b, &l); err == nil {
			items, err = w.fromJSON(l)
		}
	case "jsonget":
		rr, f := get("/metricsapi"+path+"?singleton=true", "")
		if f {
			return nil, true, nil
		}
		var m jsonMetric
		if err = json.Unmarshal(rr.Body.Bytes(), &m); err == nil {
			items, err = w.fromJSON([]jsonMetric{m})
		}
	case "text":
		rr, f := get("/metrics"+path+"?format=text", "")
		if f {
			return nil, true, nil
		}
		for _, line := range strings.Split(strings.TrimSuffix(rr.Body.String(), "\n"), "\n") {
			p := strings.SplitN(line, " ", 2)
			if len(p) != 2 {
				return nil, false, fmt.Errorf("cannot parse %q", line)
			}
			it, e := w.item(p[0], p[1], -1, -1)
			if e != nil {
				return nil, false, e
			}
			items = append(items, it)
		}
	case "text1":
		rr, f := get("/metrics"+path+"?format=text", "")
		if f {
			return nil, true, nil
		}
		it, e := w.item(path, strings.TrimSuffix(rr.Body.String(), "\n"), -1, -1)
		return []sessItem{it}, false, e
	case "html", "html1":
		rr, f := get("/metrics"+path, "")
		if f {
			return nil, true, nil
		}
		body := rr.Body.String()
		if strings.Contains(body, "Error in template") {
			// a panicking callback inside the template
			return nil, true, nil
		}
		for _, m := range reHTMLItem.FindAllStringSubmatch(body, -1) {
			it, e := w.item(m[1], html.UnescapeString(m[2]), -1, -1)
			if e != nil {
				return nil, false, e
			}
			items = append(items, it)
		}
	default:
		fatal("iface", iface)
	}
	return
}

// request runs one request in the current goroutine and logs it.
func (w *sessWorld) request(r *sessReq, iface, path string, fail int, panics bool) {
	id := goid()
	w.mu.Lock()
	w.byGoid[id] = append(w.byGoid[id], r)
	w.ev = append(w.ev, rec{"k": "req", "r": r.id, "w": r.w, "if": iface, "p": path})
	w.mu.Unlock()
	var items []sessItem
	var failed bool
	var err error
	if p := catch(func() { items, failed, err = w.perform(iface, path, fail, panics) }); p != nil {
		failed = true
		if p != "callback panics" && p != "connection gone" {
			mismatch([]string{"C01", "C02", "C03"}, fmt.Sprint("request panics: ", p), nil, rec{"if": iface, "p": path})
		}
	}
	if items == nil {
		items = []sessItem{}
	}
	w.mu.Lock()
	e := rec{"k": "done", "r": r.id, "ok": !failed && err == nil, "resp": items}
	if err != nil {
		// a malformed response; other properties deal with that
		e["err"] = err.Error()
		count("unparsed", 1)
	}
	w.ev = append(w.ev, e)
	w.byGoid[id] = w.byGoid[id][:len(w.byGoid[id])-1]
	delete(w.reqs, r.id)
	w.mu.Unlock()
	close(r.done)
}

// newReq chooses a directory, interface and failure for groups ws.
func (w *sessWorld) newReq(ws []int, rng *rand.Rand, gated bool, faults bool) (*sessReq, func()) {
	k := ""
	for _, g := range ws {
		k += strconv.Itoa(g)
	}
	return w.newReqIn(w.dirs[k], ws, rng, gated, faults)
}

func (w *sessWorld) newReqIn(ds []*sessDir, ws []int, rng *rand.Rand, gated bool, faults bool) (*sessReq, func()) {
	d := ds[rng.Intn(len(ds))]
	if gated && rng.Intn(4) > 0 {
		d = ds[rng.Intn(min(3, (3*len(ds)+3)/4))] // has callbacks
	}
	iface := sessIfaces[rng.Intn(len(sessIfaces))]
	path := d.path
	if iface == "html" && !d.flat {
		iface = "json"
	}
	if iface == "html" && w.pages != nil && rng.Intn(2) == 0 {
		s := append([]int{}, ws...)
		sort.Ints(s)
		k := ""
		for _, g := range s {
			k += strconv.Itoa(g)
		}
		d = w.pages[k]
		path = d.path
	} else if len(ws) == 1 && rng.Intn(3) == 0 && w.of != nil && !gated {
		// one metric somewhere among those of other groups
		iface = sessSingle[rng.Intn(len(sessSingle))]
		for {
			path = w.of[rng.Intn(len(w.of))]
			if w.meta[path].g == ws[0] {
				break
			}
		}
	} else if len(ws) == 1 && rng.Intn(3) == 0 {
		iface = sessSingle[rng.Intn(len(sessSingle))]
		var ms []*sessMetric
		for _, m := range d.metrics {
			if m.g > 0 {
				ms = append(ms, m)
			}
		}
		m := ms[rng.Intn(len(ms))]
		if gated && rng.Intn(3) > 0 {
			for _, x := range ms {
				if x.cb {
					m = x
				}
			}
		}
		path = m.path
	}
	fail, panics := -1, false
	if faults && rng.Intn(6) == 0 {
		switch iface {
		case "json", "jsongz", "text", "html", "json1", "jsonget", "text1", "html1":
			fail, panics = rng.Intn(14), rng.Intn(3) == 0
		}
	}
	w.mu.Lock()
	w.nextR++
	r := &sessReq{id: w.nextR, w: ws, open: make(chan bool), gate: map[int]bool{}, done: make(chan struct{})}
	if gated {
		for _, g := range ws {
			r.gate[g] = true
		}
	}
	w.reqs[r.id] = r
	w.mu.Unlock()
	return r, func() { w.request(r, iface, path, fail, panics) }
}

// newNone makes a request that asks for no group.
func (w *sessWorld) newNone(rng *rand.Rand) (*sessReq, func()) {
	iface, path := "html", ""
	switch rng.Intn(4) {
	case 0:
		path = []string{"/S", "/", "/S/h", "/S/n123/"}[rng.Intn(4)]
	case 1:
		iface = []string{"read", "rpc", "rpcget", "json", "jsonget", "jsongz", "html1"}[rng.Intn(7)]
		path = []string{"/S/f1/1a/x", "/S/nix", "/S/f1/1", "/S/n1/1/zz", "/T"}[rng.Intn(5)]
	default:
		iface = sessSingle[rng.Intn(len(sessSingle))]
		for {
			path = w.of[rng.Intn(len(w.of))]
			if w.meta[path].g == 0 {
				break
			}
		}
	}
	w.mu.Lock()
	w.nextR++
	r := &sessReq{id: w.nextR, w: []int{}, open: make(chan bool), gate: map[int]bool{}, done: make(chan struct{})}
	w.reqs[r.id] = r
	w.mu.Unlock()
	return r, func() { w.request(r, iface, path, -1, false) }
}

func (w *sessWorld) quiet() bool {
	if !quiesce() {
		count("never_at_rest", 1)
		return false
	}
	w.mu.Lock()
	blk := []int{}
	for _, r := range w.reqs {
		if r.blocked {
			blk = append(blk, r.id)
		}
	}
	sort.Ints(blk)
	w.ev = append(w.ev, rec{"k": "q", "blk": blk})
	w.mu.Unlock()
	return true
}

// begin starts a new history, with an update function registered for each
// group while nothing else happens.
func (w *sessWorld) begin() []int {
	for g := 1; g <= w.n; g++ {
		w.register(g)
	}
	w.mu.Lock()
	w.ev = nil
	w.r0 = w.nextR
	fn := append([]int{}, w.fn...)
	w.mu.Unlock()
	return fn
}

// drain lets everything finish. False: something never does.
func (w *sessWorld) drain(q bool) bool {
	for {
		if q {
			w.quiet()
		} else {
			quiesce()
		}
		var opened bool
		w.mu.Lock()
		var bl []*sessReq
		for _, r := range w.reqs {
			if r.blocked {
				bl = append(bl, r)
			}
		}
		sort.Slice(bl, func(a, b int) bool { return bl[a].id < bl[b].id })
		ug := 0
		for g := 1; g <= w.n; g++ {
			if w.updWait[g] > 0 {
				ug = g
			}
		}
		n := len(w.reqs)
		w.mu.Unlock()
		if ug > 0 {
			w.openUpd(ug)
			opened = true
		} else if len(bl) > 0 {
			bl[0].open <- false
			opened = true
		}
		if opened {
			continue
		}
		if n == 0 {
			return true
		}
		// at rest, nothing to open, requests pending
		if !q {
			w.quiet()
		}
		return false
	}
}

func (w *sessWorld) openUpd(g int) bool {
	w.mu.Lock()
	n := w.updWait[g]
	if n > 0 {
		w.updWait[g]--
	}
	w.mu.Unlock()
	if n > 0 {
		w.updOpen[g] <- true
	}
	return n > 0
}

// trace returns the history recorded since begin, with the functions that
// were registered then.
func (w *sessWorld) trace(fn []int) rec {
	w.mu.Lock()
	defer w.mu.Unlock()
	// the data each request reports of each group, 0 if it reports none
	fin := make([][]int, w.nextR-w.r0)
	for i := range fin {
		fin[i] = make([]int, w.n)
	}
	for _, e := range w.ev {
		if e["k"] != "done" {
			continue
		}
		f := fin[e["r"].(int)-w.r0-1]
		bad := map[int]bool{}
		var set []sessItem
		seen := map[sessItem]bool{}
		for _, x := range e["resp"].([]sessItem) {
			if x.G > 0 && x.M == 0 && e["ok"].(bool) {
				if f[x.G-1] != 0 && f[x.G-1] != x.U {
					bad[x.G] = true
				}
				f[x.G-1] = x.U
			}
			if !seen[x] {
				seen[x] = true
				set = append(set, x)
			}
		}
		for g := range bad {
			f[g-1] = 0
		}
		if set != nil {
			e["resp"] = set
		}
	}
	return rec{"fn": fn[1:], "gid": w.gid, "ev": w.ev, "fin": fin, "r0": w.r0}
}

// ---- schedules of the specification ----

type sessAct struct {
	Op   string
	R, G int
	W    []int
}

type sessSUT struct {
	w     *sessWorld
	tw    *traceWriter
	rng   *rand.Rand
	slots map[int]*sessReq
	fn0   []int
	live  bool
}

func (s *sessSUT) end() bool {
	if !s.live {
		return true
	}
	s.live = false
	ok := s.w.drain(true)
	s.tw.put(s.w.trace(s.fn0))
	count("histories", 1)
	if !ok {
		// TLC rejects the history just written
		count("stuck", 1)
		return false
	}
	return true
}

func (s *sessSUT) Reset(init int, rng *rand.Rand) bool {
	if !s.end() {
		return false
	}
	s.rng = rng
	s.slots = map[int]*sessReq{}
	for g := 1; g <= sessGroups; g++ {
		s.w.gateUpd[g] = rng.Intn(5) > 0
	}
	s.w.mutating = rng.Intn(2) == 0
	s.fn0 = s.w.begin()
	s.live = true
	return true
}

func (s *sessSUT) Step(act json.RawMessage, target int, replay func() interface{}) bool {
	var a sessAct
	if err := json.Unmarshal(act, &a); err != nil {
		fatal(err)
	}
	w := s.w
	blocked := func(r int) *sessReq {
		w.mu.Lock()
		defer w.mu.Unlock()
		if q := s.slots[r]; q != nil && q.blocked {
			return q
		}
		return nil
	}
	switch a.Op {
	case "int":
		return true
	case "Start":
		if q := s.slots[a.R]; q != nil {
			select {
			case <-q.done:
			default:
				count("skipped", 1)
				return true
			}
		}
		r, run := w.newReq(a.W, s.rng, true, true)
		s.slots[a.R] = r
		go run()
	case "OpenRead", "Panic":
		q := blocked(a.R)
		if q == nil {
			count("skipped", 1)
			return true
		}
		q.open <- a.Op == "Panic"
	case "OpenUpd":
		if !w.openUpd(a.G) {
			count("skipped", 1)
			return true
		}
	case "RegFn":
		go w.register(a.G)
	default:
		fatal("op", a.Op)
	}
	w.quiet()
	return true
}

func init() {
	commands["sessions-mbt"] = func() {
		g := loadGraph(*fGraph)
		rng := newRand(*fSeed, fmt.Sprint("sessions", *fShard))
		s := &sessSUT{w: newSessWorld(rng), tw: newTrace()}
		tour(g, s, rng, *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
		s.end()
		s.tw.close()
	}
	commands["sessions-race"] = sessRace
	commands["sessions-many"] = sessMany
}

// sessRace lets requests and registrations run freely.
func sessRace() {
	rng := newRand(*fSeed, fmt.Sprint("sessrace", *fShard))
	w := newSessWorld(rng)
	tw := newTrace()
	combos := [][]int{{1}, {1}, {2}, {1, 2}, {2, 1}, {1, 2}, {3}, {1, 2, 3}, {2, 3}}
	for n := 0; n < *fN; n++ {
		verifyield.Set(0)
		for g := 1; g <= sessGroups; g++ {
			w.gateUpd[g] = false
		}
		w.mutating = rng.Intn(3) == 0
		w.nesting = rng.Intn(6) == 0
		atomic.StoreInt32(&w.spin, int32(rng.Intn(4)))
		fn0 := w.begin()
		var wg sync.WaitGroup
		nt := 2 + rng.Intn(3)
		one := rng.Intn(2) == 0 // everyone on the same group
		start := make(chan struct{})
		for t := 0; t < nt; t++ {
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-start
				for k := 0; k < 1+r.Intn(3); k++ {
					if r.Intn(5) == 0 {
						g := 1
						if !one {
							g = 1 + r.Intn(2)
						}
						w.register(g)
						if r.Intn(2) == 0 {
							// a request right after the registration
							_, run := w.newReq([]int{g}, r, false, false)
							run()
						}
						continue
					}
					c := []int{1}
					if !one || r.Intn(4) == 0 {
						c = combos[r.Intn(len(combos))]
					}
					var run func()
					if r.Intn(8) == 0 {
						_, run = w.newNone(r)
					} else {
						_, run = w.newReq(c, r, false, r.Intn(4) == 0)
					}
					run()
				}
			}()
		}
		verifyield.Set(1 + rng.Intn(8))
		guard([]string{"C03", "C05"}, "concurrent requests and registrations", nil)
		close(start)
		wg.Wait()
		unguard()
		verifyield.Set(0)
		w.quiet()
		tw.put(w.trace(fn0))
		count("histories", 1)
	}
	tw.close()
}

// sessMany: very many requests reading one group at once, and very many one
// after the other.
func sessMany() {
	rng := newRand(*fSeed, fmt.Sprint("sessmany", *fShard))
	w := newSessWorld(rng)
	tw := newTrace()
	defer tw.close()
	if *fShard%2 == 0 {
		fn0 := w.begin()
		var rs []*sessReq
		for i := 0; i < *fN; i++ {
			r, run := w.newReq([]int{1}, rng, true, false)
			rs = append(rs, r)
			go run()
			if i%40 == 39 {
				w.quiet()
			}
		}
		w.quiet()
		for i, r := range rs {
			w.mu.Lock()
			b := r.blocked
			w.mu.Unlock()
			if b {
				r.open <- i%17 == 3
			}
			if i%40 == 39 {
				w.quiet()
			}
			if i == *fN/2 {
				go w.register(1)
				w.quiet()
			}
		}
		ok := w.drain(true)
		if ok {
			_, run := w.newReq([]int{1}, rng, false, false)
			run()
			w.quiet()
		}
		tw.put(w.trace(fn0))
		return
	}
	fn0 := w.begin()
	for i := 0; i < *fN; i++ {
		ws := []int{1}
		switch rng.Intn(6) {
		case 0:
			ws = []int{1, 2}
		case 1:
			ws = []int{2}
		}
		var run func()
		if rng.Intn(6) == 0 {
			_, run = w.newNone(rng)
		} else {
			_, run = w.newReq(ws, rng, false, rng.Intn(8) == 0)
		}
		guard([]string{"C03"}, "a request on its own", nil)
		run()
		unguard()
		if rng.Intn(30) == 0 {
			w.register(1)
		}
		if rng.Intn(20) == 0 {
			w.nowStamps()
		}
	}
	w.quiet()
	tw.put(w.trace(fn0))
	count("histories", 1)
}

// nowStamps: groups without an update function report the time of the request.
func (w *sessWorld) nowStamps() {
	const slack = 200 * time.Millisecond // for steps of the wall clock
	t0 := time.Now().Add(-slack)
	for _, p := range []string{"/S/v1/0plain", "/S/v1/9def", "/S/v1/0def"} {
		l := tricorder.ReadMyMetrics(p)
		t1 := time.Now().Add(slack)
		if len(l) != 1 {
			mismatch([]string{"C09"}, "listing of a metric", l, p)
			continue
		}
		ts, ok := l[0].TimeStamp.(time.Time)
		if !ok || ts.Before(t0) || ts.After(t1) {
			mismatch([]string{"C04"}, "timestamp of a group without update function is not the time of the request",
				fmt.Sprint(t0, l[0].TimeStamp, t1), p)
		}
	}
}
