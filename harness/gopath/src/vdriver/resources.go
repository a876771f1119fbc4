package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"weak"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// What the process keeps: bulk steps, each followed by a look at the number of
// goroutines and open files, at the memory in use, and at which of the things
// given to tricorder can still be reached.

func init() {
	commands["resources-mbt"] = func() { resources(true) }
	commands["resources"] = func() { resources(false) }
}

// thing is what registered metrics refer to.
type thing struct {
	v   int64
	s   string
	pad [600]byte
}

type resAct struct {
	Op, K, W, S, E string
	N              int
}

type resWorld struct {
	rng    *rand.Rand
	base   string
	n      int // things per bulk step
	seq    int
	refs   map[string][]func() bool // still reachable?
	paths  map[string][]string      // what is registered, by kind
	dirs   map[string][]string      // the parents of what is registered
	group  *tricorder.Group
	groups []*tricorder.Group
	list   *tricorder.List
	dist   [2]anyDist
	panics bool
	stir   func()
	ev     []rec
	gor    int
	files  int
	heap   uint64
	acts   []resAct
	addr   string
}

func countFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

func countGoroutines() int { return runtime.NumGoroutine() }

func heapNow() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

var resSeq int

// resWarm makes the runtime allocate what it never gives back (descriptors of
// goroutines, room for timers) and the libraries their caches, before anything
// is measured.
func resWarm(w *resWorld) {
	done := make(chan bool)
	for i := 0; i < 4000; i++ {
		go func() {
			time.Sleep(200 * time.Millisecond)
			done <- true
		}()
	}
	for i := 0; i < 4000; i++ {
		<-done
	}
	for _, i := range []string{"mine", "rpc", "rpctcp", "json", "jsongz", "text", "html", "http"} {
		for _, s := range []string{"list", "one", "missing"} {
			for j := 0; j < 8; j++ {
				catch(func() { w.request(resAct{Op: "req", W: i, S: s, E: "normal"}) })
			}
		}
	}
	w.look(resAct{})
	w.ev = nil
}

func newResWorld(rng *rand.Rand, n int, addr string) *resWorld {
	resSeq++
	w := &resWorld{rng: rng, n: n, base: fmt.Sprintf("/res%d", resSeq), addr: addr,
		refs: map[string][]func() bool{}, paths: map[string][]string{}, dirs: map[string][]string{}}
	w.group = tricorder.NewGroup()
	w.group.RegisterUpdateFunc(func() time.Time { return time.Unix(1, 0) })
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(tricorder.RegisterMetricInGroup(w.base+"/fixed/a", new(int64), w.group, units.None, "a"))
	must(tricorder.RegisterMetricInGroup(w.base+"/fixed/b", func() string { return "b" }, w.group, units.None, "b"))
	must(tricorder.RegisterMetricInGroup(w.base+"/fixed/panics", func() int64 {
		if w.panics {
			panic("as asked")
		}
		return 5
	}, w.group, units.None, "may panic"))
	must(tricorder.RegisterMetricInGroup(w.base+"/fixed/stirs", func() time.Duration {
		if f := w.stir; f != nil {
			w.stir = nil
			f()
		}
		return time.Second
	}, w.group, units.Second, "calls back"))
	must(tricorder.RegisterMetric(w.base+"/taken", new(int64), units.None, "taken"))
	w.list = tricorder.NewList([]int64{1}, false)
	must(tricorder.RegisterMetric(w.base+"/fixed/list", w.list, units.None, "list"))
	for i, k := range []string{"c", "n"} {
		w.dist[i] = newAnyDist(tricorder.PowersOfTen, k)
		must(tricorder.RegisterMetric(w.base+"/fixed/dist"+k, w.dist[i].metric(), units.None, "dist"))
	}
	if flag.Lookup("res-a") == nil {
		flag.CommandLine = flag.NewFlagSet("app", flag.ContinueOnError)
		flag.Int("res-a", 1, "a")
		flag.String("res-b", "x", "b")
		flag.Var(&plainFlag{"p"}, "res-c", "c")
		flag.Duration("res-d", 1, "d")
	}
	tricorder.RegisterFlags()
	return w
}

// use does things that only change values.
func (w *resWorld) use(how string, n int) {
	for i := 0; i < n; i++ {
		switch how {
		case "health":
			w.seq++
			s := fmt.Sprint("ill ", w.seq, strings.Repeat("h", 600))
			switch w.rng.Intn(4) {
			case 0:
				healthserver.SetNotHealthy(s)
			case 1:
				healthserver.SetNotReady(s)
			case 2:
				healthserver.SetHealthy()
			default:
				healthserver.SetReady()
			}
			if w.rng.Intn(4) == 0 {
				httpGet("/healthz", nil)
				httpGet("/readiness?q="+w.name(), nil)
			}
		case "values":
			for j := 0; j < 8; j++ {
				w.dist[w.rng.Intn(2)].add(float64(w.seq*8 + j))
			}
			w.seq++
		case "moves":
			w.seq++
			v := float64(w.seq)
			w.dist[1].add(v)
			w.dist[1].n.Update(v, -v)
			w.dist[1].n.Remove(-v)
		case "flags":
			tricorder.RegisterFlags()
		case "failed":
			t := &thing{}
			watch(w, "func", t)
			d := w.dist[w.rng.Intn(2)]
			catch(func() { d.add(t) })
			catch(func() { d.add(time.Second) })
		}
	}
}

// watch makes the look count k things until t is let go.
func watch[T any](w *resWorld, k string, t *T) {
	p := weak.Make(t)
	w.refs[k] = append(w.refs[k], func() bool { return p.Value() != nil })
}

// fresh returns something of kind k to register.
func (w *resWorld) fresh(k string) interface{} {
	switch k {
	case "var":
		t := &thing{v: 1, s: "s"}
		watch(w, k, t)
		switch w.rng.Intn(3) {
		case 0:
			return &t.s
		case 1:
			d := &struct {
				p   *time.Time
				pad [600]byte
			}{p: new(time.Time)}
			watch(w, k, d)
			return &d.p
		}
		return &t.v
	case "cb":
		t := &thing{v: 1, s: "s"}
		watch(w, k, t)
		if w.rng.Intn(2) == 0 {
			return func() int64 { return t.v }
		}
		return func() string { return t.s }
	case "list":
		var l *tricorder.List
		switch w.rng.Intn(3) {
		case 0:
			l = tricorder.NewList(make([]int64, 80), w.rng.Intn(2) == 0)
		case 1:
			l = tricorder.NewList([]string{"a", "b"}, w.rng.Intn(2) == 0)
		default:
			l = tricorder.NewList([]time.Time{time.Now()}, true)
		}
		watch(w, k, l)
		return l
	default:
		if w.rng.Intn(2) == 0 {
			d := tricorder.PowersOfTen.NewNonCumulativeDistribution()
			watch(w, k, d)
			return d
		}
		d := tricorder.PowersOfTwo.NewCumulativeDistribution()
		watch(w, k, d)
		return d
	}
}

func (w *resWorld) name() string {
	w.seq++
	return fmt.Sprintf("n%d", w.seq)
}

func (w *resWorld) put(path, k string) error {
	switch {
	case k == "dir":
		d, err := tricorder.RegisterDirectory(path)
		if err != nil {
			return err
		}
		watch(w, k, d)
		if w.rng.Intn(2) == 0 {
			return d.RegisterMetric("x", new(int64), units.None, "x")
		}
		return nil
	case w.rng.Intn(3) == 0 && len(w.groups) > 0:
		return tricorder.RegisterMetricInGroup(path, w.fresh(k), w.groups[w.rng.Intn(len(w.groups))], units.None, "d")
	}
	return tricorder.RegisterMetric(path, w.fresh(k), units.None, "d")
}

func (w *resWorld) register(k string, n int) {
	for i := 0; i < n; i++ {
		p := w.base + "/" + k + "/" + w.name()
		if w.rng.Intn(3) == 0 {
			p += "/" + w.name()
		}
		if err := w.put(p, k); err != nil {
			mismatch([]string{"C06"}, "registering "+p+": "+err.Error(), nil, nil)
		}
		w.paths[k] = append(w.paths[k], p)
	}
}

func (w *resWorld) unregister(k, how string) {
	switch how {
	case "each":
		for _, p := range w.paths[k] {
			tricorder.UnregisterPath(p)
		}
	case "parent":
		tricorder.UnregisterPath(w.base + "/" + k)
	default:
		if d, err := tricorder.GetDirectory(w.base + "/" + k); err == nil {
			d.UnregisterDirectory()
		}
	}
	w.paths[k] = nil
}

func (w *resWorld) refuse(k, how string, n int) {
	bad := func(err error) {
		if err == nil {
			mismatch([]string{"C06", "C14"}, "registration "+how+" of "+k+" succeeded", nil, nil)
		}
	}
	for i := 0; i < n; i++ {
		switch how {
		case "occupied":
			if k == "dir" {
				_, err := tricorder.RegisterDirectory(w.base + "/taken")
				bad(err)
				continue
			}
			bad(w.put(w.base+"/"+[]string{"taken", "fixed", "fixed/a"}[w.rng.Intn(3)], k))
		case "below":
			bad(w.put(w.base+"/taken/"+w.name()+strings.Repeat("y", 600)+"/x", k))
		case "type":
			t := &thing{}
			watch(w, k, t)
			p := w.base + "/fixed/" + w.name() + strings.Repeat("z", 600)
			switch w.rng.Intn(4) {
			case 0:
				bad(tricorder.RegisterMetric(p, t, units.None, "d"))
			case 1:
				bad(tricorder.RegisterMetric(p, func(x int) int { return x + int(t.v) }, units.None, "d"))
			case 2:
				bad(tricorder.RegisterMetric(p, func() *thing { return t }, units.None, "d"))
			default:
				bad(tricorder.RegisterMetric(p, &[]*thing{t}, units.None, "d"))
			}
		case "unit":
			d := tricorder.PowersOfTwo.NewCumulativeDistribution()
			watch(w, k, d)
			p := w.base + "/other/" + w.name()
			if err := tricorder.RegisterMetric(p, d, units.Second, "d"); err != nil {
				mismatch([]string{"C06"}, "registering "+p+": "+err.Error(), nil, nil)
			}
			bad(tricorder.RegisterMetric(p+"x", d, units.Byte, "d"))
			tricorder.UnregisterPath(p)
		}
	}
}

func (w *resWorld) lookup(how string, n int) {
	for i := 0; i < n; i++ {
		switch how {
		case "find":
			tricorder.GetDirectory(w.base + "/fixed")
		case "missing":
			p := w.base + "/" + w.name() + strings.Repeat("q", 600)
			tricorder.GetDirectory(p)
			tricorder.UnregisterPath(p + "/r")
		default:
			tricorder.RegisterDirectory(w.base + "/fixed/")
		}
	}
}

func (w *resWorld) replace(k string, n int) {
	for i := 0; i < n; i++ {
		if k == "func" {
			t := &thing{v: 1}
			watch(w, k, t)
			w.group.RegisterUpdateFunc(func() time.Time { return time.Unix(t.v, 0) })
			if w.rng.Intn(8) == 0 {
				tricorder.ReadMyMetrics(w.base + "/fixed")
			}
			continue
		}
		c := make([]int64, 80)
		watch(w, k, &c[0])
		w.list.Change(c, w.rng.Intn(2) == 0)
		if w.rng.Intn(8) == 0 {
			tricorder.ReadMyMetrics(w.base + "/fixed")
		}
	}
}

// resDialed and resAccepted count connections: what the kernel still holds for
// the server has yet to be served.
var resDialed, resAccepted atomic.Int64

type countingListener struct{ net.Listener }

func (l countingListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		resAccepted.Add(1)
	}
	return c, err
}

func resDial(addr string) net.Conn {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		fatal(err)
	}
	resDialed.Add(1)
	return c
}

// resServe serves RPC and HTTP over TCP on one address each.
func resServe() (rpcAddr, httpAddr string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	go func() {
		for {
			c, err := countingListener{l}.Accept()
			if err != nil {
				return
			}
			go rpc.ServeConn(c)
		}
	}()
	h, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	go http.Serve(countingListener{h}, nil)
	return l.Addr().String(), h.Addr().String()
}

func (w *resWorld) request(a resAct) {
	path := w.base
	switch {
	case a.E == "panic" && a.S == "one":
		path += "/fixed/panics"
	case a.S == "one":
		path += "/fixed/" + []string{"a", "b", "list", "stirs"}[w.rng.Intn(4)]
	case a.S == "missing":
		path += "/" + w.name() + strings.Repeat("m", 300)
	case len(w.paths["var"])+len(w.paths["list"])+len(w.paths["dist"])+len(w.paths["cb"]) > 200 || w.rng.Intn(3) == 0:
		path += "/fixed"
	}
	rpcCall := func() (string, string) {
		if a.S == "list" {
			return "MetricsServer.ListMetrics", path
		}
		return "MetricsServer.GetMetric", path
	}
	switch a.W {
	case "mine":
		tricorder.ReadMyMetrics(path)
	case "rpc":
		rpcRaw(rpcCall())
	case "rpctcp":
		c := resDial(strings.Fields(w.addr)[0])
		m, arg := rpcCall()
		if a.E == "gone" {
			// the request is on its way when the client goes
			go func() {
				time.Sleep(time.Duration(resSeq%3) * 100 * time.Microsecond)
				c.Close()
			}()
		}
		cl := rpc.NewClient(c)
		if a.S == "list" {
			var out messages.MetricList
			cl.Call(m, arg, &out)
		} else {
			var out messages.Metric
			cl.Call(m, arg, &out)
		}
		cl.Close()
	case "http":
		c := resDial(strings.Fields(w.addr)[1])
		pre := []string{"/metricsapi", "/metrics"}[w.rng.Intn(2)]
		fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nAccept-Encoding: gzip\r\n\r\n", reqURI(pre, path, ""))
		if a.E == "normal" {
			if r, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
				io.Copy(io.Discard, r.Body)
			}
		}
		c.Close()
	default:
		hdr := map[string]string{}
		uri := reqURI("/metricsapi", path, "")
		if a.S == "one" && w.rng.Intn(2) == 0 {
			uri = reqURI("/metricsapi", path, "singleton=true")
		}
		switch a.W {
		case "jsongz":
			hdr["Accept-Encoding"] = "gzip"
		case "text":
			uri = reqURI("/metrics", path, "format=text")
		case "html":
			uri = reqURI("/metrics", path, "")
		}
		r := httptest.NewRequest("GET", uri, nil)
		for k, v := range hdr {
			r.Header.Set(k, v)
		}
		rec := httptest.NewRecorder()
		if a.E == "gone" {
			http.DefaultServeMux.ServeHTTP(&failWriter{ResponseRecorder: rec, left: w.rng.Intn(3), panics: w.rng.Intn(4) == 0}, r)
		} else {
			http.DefaultServeMux.ServeHTTP(rec, r)
		}
	}
}

func (w *resWorld) step(a resAct) {
	n := a.N
	switch a.Op {
	case "reg":
		w.register(a.K, n)
	case "unreg":
		w.unregister(a.K, a.W)
	case "refuse":
		w.refuse(a.K, a.W, n)
	case "look":
		w.lookup(a.W, n)
	case "use":
		w.use(a.W, n)
	case "replace":
		w.replace(a.K, n)
	case "group":
		for i := 0; i < n; i++ {
			w.groups = append(w.groups, tricorder.NewGroup())
		}
	case "req":
		w.panics = a.E == "panic"
		for i := 0; i < n; i++ {
			if w.rng.Intn(4) == 0 && a.W != "rpctcp" && a.W != "http" {
				w.stir = func() {
					p := w.base + "/stirred/" + w.name()
					w.put(p, "var")
					tricorder.UnregisterPath(p)
				}
			}
			catch(func() { w.request(a) })
		}
		w.panics, w.stir = false, nil
	}
}

// look waits until nothing is in progress and records what is left.
func (w *resWorld) look(a resAct) {
	want := map[string]int{}
	total := 0
	for k, p := range w.paths {
		want[k] = len(p)
		total += len(p)
	}
	for t := time.Now(); resAccepted.Load() < resDialed.Load() && time.Since(t) < 10*time.Second; {
		time.Sleep(time.Millisecond)
	}
	gor, files := 1<<30, 1<<30
	last := time.Now()
	for {
		g, f := countGoroutines()-w.gor, countFiles()-w.files
		if g < gor || f < files {
			last = time.Now()
		}
		gor, files = min(gor, g), min(files, f)
		if gor <= len(w.groups) && files <= 1 || time.Since(last) > 4*time.Second {
			break
		}
		time.Sleep(time.Millisecond)
	}
	alive := map[string]int{}
	var kib int64
	for i := 0; i < 5; i++ {
		runtime.GC()
		good := true
		for k, l := range w.refs {
			var still []func() bool
			for _, f := range l {
				if f() {
					still = append(still, f)
				}
			}
			w.refs[k] = still
			alive[k] = len(still)
			good = good && len(still) <= want[k]+4
		}
		kib = (int64(heapNow()) - int64(w.heap)) / 1024
		if good && kib <= int64(64+3*total) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	w.ev = append(w.ev, rec{"op": a.Op, "k": a.K, "w": a.W, "s": a.S, "e": a.E, "n": a.N,
		"goroutines": max(gor, 0), "files": max(files, 0), "kib": max(kib, 0), "alive": alive})
	count("looks", 1)
}

func (w *resWorld) begin() {
	runtime.GC()
	runtime.GC()
	w.gor, w.files, w.heap = countGoroutines(), countFiles(), heapNow()
}

// resOver counts looks that found too much; waiting for it to go away takes
// long, and a few are enough.
var resOver int

func (w *resWorld) run(a resAct) {
	if resOver >= 25 {
		return
	}
	guard([]string{"C03", "C28"}, a.Op+" "+a.W, func() interface{} { return w.ev })
	w.step(a)
	w.look(a)
	unguard()
	if e := w.ev[len(w.ev)-1]; e["goroutines"].(int) > 2*len(w.groups)+8 || e["files"].(int) > 8 {
		resOver++
	}
}

func (w *resWorld) end(tr *traceWriter) {
	if len(w.ev) > 0 {
		tr.put(map[string]interface{}{"ev": w.ev})
	}
	tricorder.UnregisterPath(w.base)
	w.ev = nil
}

type resSUT struct {
	g    *Graph
	w    *resWorld
	tr   *traceWriter
	addr string
	n    int
}

func (s *resSUT) Reset(init int, rng *rand.Rand) bool {
	if s.w != nil {
		s.w.end(s.tr)
	}
	s.w = newResWorld(rng, s.n, s.addr)
	s.w.begin()
	return true
}

func (s *resSUT) Step(act json.RawMessage, target int, replay func() interface{}) bool {
	var a resAct
	json.Unmarshal(act, &a)
	a.N = s.n
	if a.Op == "unreg" {
		a.N = len(s.w.paths[a.K])
	}
	s.w.run(a)
	return true
}

func resources(mbt bool) {
	tr := newTrace()
	defer tr.close()
	rng := newRand(*fSeed, fmt.Sprintf("resources-%v-%d", mbt, *fShard))
	a, b := resServe()
	addr := a + " " + b
	warm := newResWorld(rng, 0, addr)
	warm.begin()
	resWarm(warm)
	tricorder.UnregisterPath(warm.base)
	if mbt {
		g := loadGraph(*fGraph)
		s := &resSUT{g: g, tr: tr, addr: addr, n: 24}
		tour(g, s, rng, *fShard, *fShards, *fExtra, *fMaxLen, 0)
		if s.w != nil {
			s.w.end(tr)
		}
		return
	}
	kinds := []string{"var", "cb", "list", "dist", "dir"}
	// all sorts of requests, shared among the shards
	var reqs []resAct
	for _, i := range []string{"mine", "rpc", "rpctcp", "json", "jsongz", "text", "html", "http"} {
		for _, s := range []string{"list", "one", "missing"} {
			for _, e := range []string{"normal", "panic", "gone"} {
				if e == "panic" && (i == "rpc" || i == "rpctcp" || i == "http" || s == "missing") || e == "gone" && (i == "mine" || i == "rpc") {
					continue
				}
				reqs = append(reqs, resAct{Op: "req", W: i, S: s, E: e})
			}
		}
	}
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	// cheap operations in such numbers that a few bytes each would show
	many := []resAct{{Op: "churn", K: "var"}, {Op: "churn", K: "cb"}, {Op: "churn", K: "list"}, {Op: "churn", K: "dist"}, {Op: "churn", K: "dir"},
		{Op: "refuse", K: "var", W: "occupied"}, {Op: "refuse", K: "cb", W: "type"}, {Op: "refuse", K: "dist", W: "unit"},
		{Op: "look", W: "find"}, {Op: "look", W: "missing"}, {Op: "look", W: "again"},
		{Op: "replace", K: "func"}, {Op: "replace", K: "contents"}}
	for _, u := range []string{"health", "values", "moves", "flags", "failed"} {
		many = append(many, resAct{Op: "use", W: u})
	}
	for _, i := range []string{"mine", "rpc", "json", "jsongz", "text", "html"} {
		for _, sc := range []string{"one", "missing"} {
			many = append(many, resAct{Op: "req", W: i, S: sc, E: "normal"})
		}
	}
	w := newResWorld(rng, 0, addr)
	w.begin()
	for i, a := range many {
		if i%*fShards != *fShard {
			continue
		}
		a.N = 80000
		switch a.W {
		case "html", "rpc":
			a.N = 50000
		case "jsongz":
			a.N = 8000
		}
		if a.Op == "churn" {
			for j := 0; j < a.N/200; j++ {
				w.step(resAct{Op: "reg", K: a.K, N: 200})
				w.step(resAct{Op: "unreg", K: a.K, W: pick("each", "each", "parent", "handle")})
			}
			// and one at a time
			for j := 0; j < 5000; j++ {
				w.step(resAct{Op: "reg", K: a.K, N: 1})
				w.step(resAct{Op: "unreg", K: a.K, W: "each"})
			}
			// some are left as empty directories
			w.step(resAct{Op: "unreg", K: a.K, W: "parent"})
		}
		t := time.Now()
		w.run(a)
		if *fMode == "times" {
			fmt.Println(a, time.Since(t))
		}
		count("many", a.N)
	}
	w.end(tr)
	for h := 0; h < *fN; h++ {
		w := newResWorld(rng, 0, addr)
		w.begin()
		steps := 6 + rng.Intn(6)
		for i := 0; i < steps; i++ {
			var a resAct
			k := kinds[rng.Intn(len(kinds))]
			switch rng.Intn(9) {
			case 6:
				a = resAct{Op: "use", W: pick("health", "values", "moves", "flags", "failed"), N: 2500}
			case 0:
				a = resAct{Op: "reg", K: k, N: 1 + rng.Intn(300)}
			case 1:
				a = resAct{Op: "unreg", K: k, W: pick("each", "parent", "handle"), N: len(w.paths[k])}
			case 2:
				a = resAct{Op: "refuse", K: k, W: pick("occupied", "below", "type"), N: 1500}
			case 3:
				a = resAct{Op: "look", W: pick("find", "missing", "again"), N: 2500}
			case 4:
				a = resAct{Op: "replace", K: pick("func", "contents"), N: 1500}
			case 5:
				// registering and unregistering again and again
				if len(w.paths[k]) > 0 {
					a = resAct{Op: "unreg", K: k, W: pick("each", "parent", "handle"), N: len(w.paths[k])}
					break
				}
				for j := 0; j < 12; j++ {
					w.step(resAct{Op: "reg", K: k, N: 100})
					w.step(resAct{Op: "unreg", K: k, W: pick("each", "parent", "handle")})
				}
				a = resAct{Op: "churn", K: k, N: 1200}
			default:
				j := (h*steps + i) * *fShards
				a = reqs[(j+*fShard*7+rng.Intn(3))%len(reqs)]
				a.N = 1500
				if a.W == "html" || a.W == "http" || a.W == "rpctcp" || a.W == "jsongz" {
					a.N = 500
				}
			}
			w.run(a)
		}
		w.end(tr)
	}
}
