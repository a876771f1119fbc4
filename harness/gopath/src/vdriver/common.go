package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// Mismatch is one deviation of the real code from the specification.
type Mismatch struct {
	Props  []string    `json:"props"`
	What   string      `json:"what"`
	Detail interface{} `json:"detail,omitempty"`
	Replay interface{} `json:"replay,omitempty"`
}

// Result is what a driver run reports.
type Result struct {
	mu         sync.Mutex
	Counts     map[string]int64 `json:"counts"`
	Mismatches []Mismatch       `json:"mismatches"`
	Samples    []interface{}    `json:"samples"`
	Done       bool             `json:"done"`
}

var (
	res     = &Result{Counts: map[string]int64{}}
	outPath string
	maxMism = 40
)

func count(k string, n int) {
	res.mu.Lock()
	res.Counts[k] += int64(n)
	res.mu.Unlock()
}

func sample(v interface{}) {
	res.mu.Lock()
	if len(res.Samples) < 3 {
		res.Samples = append(res.Samples, v)
	}
	res.mu.Unlock()
}

// mismatch records a deviation. At most a few of each kind are kept.
func mismatch(props []string, what string, detail, replay interface{}) {
	res.mu.Lock()
	defer res.mu.Unlock()
	res.Counts["mismatches"]++
	n := 0
	for _, m := range res.Mismatches {
		if strings.Join(m.Props, ",") == strings.Join(props, ",") {
			n++
		}
	}
	if n < 4 && len(res.Mismatches) < maxMism {
		res.Mismatches = append(res.Mismatches, Mismatch{props, what, detail, replay})
	}
}

func finish(done bool) {
	res.mu.Lock()
	res.Done = done
	b, err := json.Marshal(res)
	if err != nil {
		// details that cannot be encoded (NaN, say)
		for i := range res.Mismatches {
			res.Mismatches[i].Detail = fmt.Sprintf("%+v", res.Mismatches[i].Detail)
			res.Mismatches[i].Replay = fmt.Sprintf("%+v", res.Mismatches[i].Replay)
		}
		for i := range res.Samples {
			res.Samples[i] = fmt.Sprintf("%+v", res.Samples[i])
		}
		b, err = json.Marshal(res)
	}
	res.mu.Unlock()
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver: result:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(outPath, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"driver error:"}, args...)...)
	os.Exit(3)
}

// ---- watchdog: an operation on the code under test that never returns ----

var wd struct {
	sync.Mutex
	start  time.Time
	props  []string
	what   string
	replay func() interface{}
	on     bool
}

const hangLimit = 30 * time.Second

func guard(props []string, what string, replay func() interface{}) {
	wd.Lock()
	wd.start, wd.props, wd.what, wd.replay, wd.on = time.Now(), props, what, replay, true
	wd.Unlock()
}

func unguard() {
	wd.Lock()
	wd.on = false
	wd.Unlock()
}

func startWatchdog() {
	tick := time.NewTicker(500 * time.Millisecond).C
	go func() {
		for range tick {
			wd.Lock()
			if wd.on && time.Since(wd.start) > hangLimit {
				var r interface{}
				if wd.replay != nil {
					r = wd.replay()
				}
				mismatch(wd.props, "operation never returned: "+wd.what, nil, r)
				finish(true)
				os.Exit(0)
			}
			wd.Unlock()
		}
	}()
}

// ---- access through the public interfaces ----

func catch(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			if p == nil {
				p = "nil panic"
			}
		}
	}()
	f()
	return nil
}

func reqURI(prefix, path, query string) string {
	if !strings.HasPrefix(path, "/") {
		path = "/" + path
	}
	u := url.URL{Path: prefix + path}
	s := u.EscapedPath()
	if query != "" {
		s += "?" + query
	}
	return s
}

func httpGet(uri string, hdr map[string]string) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", uri, nil)
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, r)
	return w
}

// httpGetF follows the redirects of the mux (repeated slashes).
func httpGetF(uri string, hdr map[string]string) *httptest.ResponseRecorder {
	for i := 0; ; i++ {
		w := httpGet(uri, hdr)
		if loc := w.Header().Get("Location"); loc != "" && w.Code >= 300 && w.Code < 400 && i < 5 {
			uri = loc
			continue
		}
		return w
	}
}

type memCodec struct {
	method string
	arg    string
	reply  interface{}
	err    string
	done   bool
}

func (c *memCodec) ReadRequestHeader(r *rpc.Request) error {
	r.ServiceMethod = c.method
	r.Seq = 1
	return nil
}
func (c *memCodec) ReadRequestBody(x interface{}) error {
	if p, ok := x.(*string); ok {
		*p = c.arg
	}
	return nil
}
func (c *memCodec) WriteResponse(r *rpc.Response, x interface{}) error {
	c.err = r.Error
	c.reply = x
	c.done = true
	return nil
}
func (c *memCodec) Close() error { return nil }

var errRPC = errors.New("rpc error")

// rpcRaw performs the RPC in this goroutine, without the wire encoding.
func rpcRaw(method, arg string) (interface{}, error) {
	c := &memCodec{method: method, arg: arg}
	if err := rpc.DefaultServer.ServeRequest(c); err != nil {
		return nil, fmt.Errorf("ServeRequest: %v", err)
	}
	if c.err != "" {
		return nil, errors.New(c.err)
	}
	return c.reply, nil
}

func gobCopy(in, out interface{}) error {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(in); err != nil {
		return err
	}
	return gob.NewDecoder(&b).Decode(out)
}

func rpcList(path string) (messages.MetricList, error) {
	r, err := rpcRaw("MetricsServer.ListMetrics", path)
	if err != nil {
		return nil, err
	}
	var out messages.MetricList
	if err := gobCopy(r, &out); err != nil {
		return nil, fmt.Errorf("gob: %v", err)
	}
	return out, nil
}

func rpcGet(path string) (*messages.Metric, error) {
	r, err := rpcRaw("MetricsServer.GetMetric", path)
	if err != nil {
		return nil, err
	}
	var out messages.Metric
	if err := gobCopy(r, &out); err != nil {
		return nil, fmt.Errorf("gob: %v", err)
	}
	return &out, nil
}

func errName(err error) string {
	switch err {
	case nil:
		return "ok"
	case tricorder.ErrNotFound:
		return "notfound"
	case tricorder.ErrPathInUse:
		return "inuse"
	case tricorder.ErrWrongUnit:
		return "wrongunit"
	case tricorder.ErrWrongType:
		return "wrongtype"
	}
	return "other:" + err.Error()
}

func mustJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	return b
}

func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func newRand(seed int64, salt string) *rand.Rand {
	h := seed * 1000003
	for _, c := range salt {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}
