package main

import (
	"bytes"
	"compress/gzip"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c22 = []string{"C22"}

// ---- a world of metrics with texts of any sort, and its harmless twin ----

type httpWorld struct {
	base    string
	targets map[string]string
	counts  map[string]int // metrics a listing of the target has
	texts   map[string][]string
	done    chan bool
}

var nastyTexts = []string{
	"<script>alert(1)</script>", "\"onmouseover=\"x", "'x'", "&amp;", "a&b", "</span><br>", "]]>", "{{.}}", "\\", "<", ">", "&", "a\tb",
	"`", "<!--", "-->", "&lt;b&gt;", "\" style=\"x", "' onerror='x", "日本\u2028語", "javascript:alert(1)", "<img src=x onerror=y>", "%3Cb%3E", "a+b c%20d",
	"</ul></table>", "&#60;", "\U0001F600", "é", "%", "?x=y", "#f", "a;b", "a:b", "(b)", "=1"}

type textFn func(kind string, i int) string

func harmless(kind string, i int) string { return fmt.Sprintf("t%d", i) }

// httpTexts: what a run of text numbers becomes, the same for each number.
func httpTexts(rng *rand.Rand) textFn {
	m := map[string]string{}
	return func(kind string, i int) string {
		k := fmt.Sprint(kind, i)
		if s, ok := m[k]; ok {
			return s
		}
		s := nastyTexts[rng.Intn(len(nastyTexts))]
		if rng.Intn(3) == 0 {
			s += nastyTexts[rng.Intn(len(nastyTexts))]
		}
		if kind != "name" && rng.Intn(6) == 0 {
			s += []string{"\n", "\x01", "\xff\xfe", "\r\n", strings.Repeat("x", 3000)}[rng.Intn(5)]
		}
		if kind == "name" {
			s = strings.ReplaceAll(s, "/", "|")
		}
		m[k] = s
		return s
	}
}

func newHTTPWorld(rng *rand.Rand, base string, tx textFn, size int) *httpWorld {
	w := &httpWorld{base: base, targets: map[string]string{}, counts: map[string]int{}, texts: map[string][]string{}}
	g := tricorder.NewGroup()
	stamp := time.Unix(1500000000+rng.Int63n(1e8), rng.Int63n(1e9))
	g.RegisterUpdateFunc(func() time.Time { return stamp })
	n := 0
	next := func() int { n++; return n }
	// names sort by their number
	name := func(pre string) string { i := next(); return fmt.Sprintf("%04d%s%s", i, pre, tx("name", i)) }
	note := func(dir string, s ...string) { w.texts[dir] = append(w.texts[dir], s...) }
	put := func(dir, n string, m interface{}, u units.Unit) string {
		p := dir + "/" + n
		d := tx("desc", next())
		if err := tricorder.RegisterMetricInGroup(p, m, g, u, d); err != nil {
			fatal("http world:", p, err)
		}
		note(dir, p, d)
		if u != units.None {
			note(dir, string(u))
		}
		w.texts[p] = append(w.texts[p], p, d)
		return p
	}
	fill := func(dir string, size int) int {
		k := 0
		for j := 0; j < size; j++ {
			u := []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, "q" + units.Unit(tx("unit", j))}[rng.Intn(5)]
			m := name("m")
			switch rng.Intn(9) {
			case 0:
				x := rng.Int63()
				put(dir, m, &x, u)
			case 1:
				f := rng.NormFloat64()
				put(dir, m, &f, u)
			case 2:
				b := rng.Intn(2) == 0
				put(dir, m, &b, u)
			case 3:
				t := time.Unix(rng.Int63n(1e9), 5)
				put(dir, m, &t, u)
			case 4:
				d := time.Duration(rng.Int63())
				put(dir, m, func() time.Duration { return d }, u)
			case 5:
				put(dir, m, tricorder.NewList([]float64{1, 2.5, rng.NormFloat64()}, tricorder.ImmutableSlice), u)
			case 6:
				f := math.NaN()
				put(dir, m, &f, u)
				k--
			default:
				s := tx("value", next())
				note(dir, s)
				put(dir, m, func() string { return s }, u)
			}
			k++
		}
		return k
	}
	top := base + "/" + name("d")
	w.targets["dir"] = top
	c := 0
	s := tx("value", next())
	u := units.Unit("z" + tx("unit", next()))
	note(top, s, string(u))
	p := put(top, name("s"), &s, u)
	w.targets["single"] = p
	w.texts[p] = append(w.texts[p], s, string(u))
	l := []string{}
	for j := rng.Intn(4); j >= 0; j-- {
		l = append(l, tx("value", next()))
	}
	note(top, l...)
	p = put(top, name("l"), tricorder.NewList(l, tricorder.ImmutableSlice), units.None)
	w.targets["list"] = p
	w.texts[p] = append(w.texts[p], l...)
	d := tricorder.NewArbitraryBucketer(1, 2, 5).NewNonCumulativeDistribution()
	p = put(top, name("h"), d, u)
	w.targets["dist"] = p
	for j := 0; j < 5; j++ {
		d.Add(float64(rng.Intn(7)))
	}
	f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[rng.Intn(3)]
	p = put(top, name("f"), &f, units.None)
	w.targets["nan"] = p
	c += 3 + fill(top, size)
	sub := top + "/" + name("d")
	c += fill(sub, 1+rng.Intn(3))
	note(top, sub)
	e := top + "/" + name("e")
	if _, err := tricorder.RegisterDirectory(e); err != nil {
		fatal(err)
	}
	note(top, e)
	w.targets["empty"] = e
	w.targets["root"] = base
	w.texts[base] = append(w.texts[base], top)
	w.targets["missing"] = top + "/" + name("x")
	w.targets["below"] = w.targets["single"] + "/" + name("x")
	w.counts["dir"], w.counts["root"] = c, c
	w.counts["single"], w.counts["list"], w.counts["dist"] = 1, 1, 1
	return w
}

// ---- requests ----

type coding struct {
	C string `json:"c"`
	Q int    `json:"q"`
}

type httpCase struct {
	P  string   `json:"p"`
	T  string   `json:"t"`
	AE []coding `json:"ae"`
}

type httpResp struct {
	status int
	header http.Header
	body   []byte
	err    string
}

var (
	httpSrvOnce sync.Once
	httpSrvAddr string
	httpClient  *http.Client
)

func overTCP(a httpAsk, h http.Header) *httpResp {
	httpSrvOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal(err)
		}
		httpSrvAddr = l.Addr().String()
		go http.Serve(l, nil)
		httpClient = &http.Client{Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16}, Timeout: 25 * time.Second,
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	})
	r, err := http.NewRequest(a.method, "http://"+httpSrvAddr+a.uri, nil)
	if err != nil {
		fatal(err)
	}
	r.Header = h.Clone()
	if r.Header == nil {
		r.Header = http.Header{}
	}
	resp, err := httpClient.Do(r)
	if err != nil {
		return &httpResp{err: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	x := &httpResp{status: resp.StatusCode, header: resp.Header, body: b}
	if err != nil {
		x.err = err.Error()
	}
	return x
}

type httpAsk struct{ method, uri string }

func inMemory(a httpAsk, h http.Header) *httpResp {
	r := httptest.NewRequest(a.method, a.uri, nil)
	for k, v := range h {
		r.Header[k] = v
	}
	w := httptest.NewRecorder()
	if p := catch(func() { http.DefaultServeMux.ServeHTTP(w, r) }); p != nil {
		return &httpResp{err: fmt.Sprint("panic: ", p)}
	}
	res := w.Result()
	return &httpResp{status: w.Code, header: res.Header, body: w.Body.Bytes()}
}

// askFor asks for the same in one of the ways HTTP has.
func askFor(rng *rand.Rand, uri string) httpAsk {
	a := httpAsk{method: "GET", uri: uri}
	if rng.Intn(4) == 0 {
		a.method = "POST"
	}
	if rng.Intn(6) == 0 {
		// parameters that mean nothing
		sep := "?"
		if strings.Contains(uri, "?") {
			sep = "&"
		}
		a.uri += sep + []string{"x=y", "pretty=1", "callback=f", "Format=json", "_=123"}[rng.Intn(5)]
	}
	return a
}

func uriOf(w *httpWorld, c *httpCase) string {
	switch c.P {
	case "html":
		return reqURI("/metrics", w.targets[c.T], "")
	case "text":
		return reqURI("/metrics", w.targets[c.T], "format=text")
	case "json":
		return reqURI("/metricsapi", w.targets[c.T], "")
	case "one":
		return reqURI("/metricsapi", w.targets[c.T], "singleton=true")
	case "css":
		return "/metricsstatic/theme.css"
	}
	return "/has-tricorder-metrics"
}

// acceptHeader writes the codings in one of the ways HTTP allows.
func acceptHeader(rng *rand.Rand, ae []coding) http.Header {
	h := http.Header{}
	if len(ae) == 0 {
		if rng.Intn(3) == 0 {
			h["Accept-Encoding"] = []string{""}
		}
		return h
	}
	lines := []string{}
	for _, c := range ae {
		s := c.C
		switch {
		case c.Q == 1000 && rng.Intn(4) == 0:
			s += []string{";q=1", ";q=1.0", "; q=1.000"}[rng.Intn(3)]
		case c.Q == 0:
			s += []string{";q=0", ";q=0.0", "; q=0.000", " ;q=0"}[rng.Intn(4)]
		case c.Q < 1000:
			q := strings.TrimRight(fmt.Sprintf("%.3f", float64(c.Q)/1000), "0")
			s += []string{";q=", "; q="}[rng.Intn(2)] + q
		}
		lines = append(lines, s)
	}
	if len(lines) > 1 && rng.Intn(4) == 0 {
		h["Accept-Encoding"] = lines
		return h
	}
	h["Accept-Encoding"] = []string{strings.Join(lines, []string{", ", ",", " , "}[rng.Intn(3)])}
	return h
}

func digest(b []byte) string { return fmt.Sprintf("%x", sha1.Sum(b))[:16] }

// unpack decodes the body completely.
func unpack(x *httpResp) (b []byte, enc string, ok bool) {
	enc = strings.Join(x.header["Content-Encoding"], ",")
	if x.err != "" {
		return x.body, enc, false
	}
	if enc == "gzip" {
		r := bytes.NewReader(x.body)
		z, err := gzip.NewReader(r)
		if err != nil {
			return nil, enc, false
		}
		b, err := io.ReadAll(z) // also a sequence of gzip members is valid
		return b, enc, err == nil
	}
	return x.body, enc, true
}

var jsonFields = map[string]bool{"path": true, "description": true, "unit": false, "kind": true, "subType": false, "bits": false, "value": true, "timestamp": true, "groupId": true}
var jsonDistFields = map[string]bool{"min": true, "max": true, "average": true, "median": true, "sum": true, "count": true, "generation": true, "isNotCumulative": false, "ranges": false}

func fieldsOk(m map[string]json.RawMessage, fields map[string]bool) bool {
	for k := range m {
		if _, ok := fields[k]; !ok {
			return false
		}
	}
	for k, need := range fields {
		if _, ok := m[k]; need && !ok {
			return false
		}
	}
	return true
}

func jsonShape(b []byte) (shape string, n int) {
	one := func(b []byte) bool {
		var m map[string]json.RawMessage
		if json.Unmarshal(b, &m) != nil || m == nil || !fieldsOk(m, jsonFields) {
			return false
		}
		if string(m["kind"]) == `"distribution"` {
			var d map[string]json.RawMessage
			return json.Unmarshal(m["value"], &d) == nil && fieldsOk(d, jsonDistFields)
		}
		return true
	}
	if !json.Valid(b) {
		return "invalid", 0
	}
	t := bytes.TrimSpace(b)
	switch t[0] {
	case '[':
		var l []json.RawMessage
		json.Unmarshal(b, &l)
		for _, m := range l {
			if !one(m) {
				return "array of something else", len(l)
			}
		}
		return "array", len(l)
	case '{':
		if !one(b) {
			return "other object", 0
		}
		return "object", 1
	case 't':
		return string(t), 0
	}
	return "other", 0
}

// skeleton: the tags of a page with their attributes, without its texts and
// the targets of links; unsafe links make it differ.
func skeleton(page string) (tags string, text string) {
	var sb, tb strings.Builder
	for i := 0; i < len(page); {
		if page[i] != '<' {
			j := strings.IndexByte(page[i:], '<')
			if j < 0 {
				j = len(page) - i
			}
			tb.WriteString(page[i : i+j])
			i += j
			continue
		}
		j, q := i+1, byte(0)
		for ; j < len(page); j++ {
			if q != 0 {
				if page[j] == q {
					q = 0
				}
			} else if page[j] == '"' || page[j] == '\'' {
				q = page[j]
			} else if page[j] == '>' {
				break
			}
		}
		tag := page[i:min(j+1, len(page))]
		if strings.HasPrefix(tag, "<a href=\"") {
			v := tag[len("<a href=\""):]
			if k := strings.IndexByte(v, '"'); k >= 0 {
				u, err := url.Parse(html.UnescapeString(v[:k]))
				if err == nil && u.Scheme == "" && u.Host == "" && strings.HasPrefix(u.Path, "/metrics/") && u.RawQuery == "" && u.Fragment == "" {
					tag = "<a href" + v[k:]
				}
			}
		}
		sb.WriteString(tag)
		tb.WriteByte('\n')
		i = j + 1
	}
	return sb.String(), html.UnescapeString(tb.String())
}

func secure(h http.Header) bool {
	dir := map[string]string{}
	for _, d := range strings.Split(strings.Join(h["Content-Security-Policy"], ","), ";") {
		if f := strings.Fields(d); len(f) > 0 {
			dir[f[0]] = strings.Join(f[1:], " ")
		}
	}
	return h.Get("X-Frame-Options") == "DENY" && strings.HasPrefix(h.Get("X-XSS-Protection"), "1") &&
		dir["default-src"] == "'self'" && (dir["style-src"] == "'self' 'unsafe-inline'" || dir["style-src"] == "'self'") && len(dir) == 2
}

// httpEvent makes the request and tells what came of it.
func httpEvent(rng *rand.Rand, w, twin *httpWorld, c *httpCase, get func(httpAsk, http.Header) *httpResp, refs map[string]*httpResp) rec {
	uri := uriOf(w, c)
	h := acceptHeader(rng, c.AE)
	ask := askFor(rng, uri)
	x := get(ask, h)
	ref := refs[c.P+c.T]
	b, enc, ok := unpack(x)
	ae := c.AE
	if ae == nil {
		ae = []coding{}
	}
	ct := x.header.Get("Content-Type")
	if i := strings.IndexByte(ct, ';'); i >= 0 {
		ct = ct[:i]
	}
	e := rec{"p": c.P, "t": c.T, "ae": ae, "st": x.status, "ct": strings.TrimSpace(ct), "media": x.header.Get("X-Tricorder-Media-Type"), "sec": secure(x.header), "enc": enc, "dec": ok,
		"body": digest(b), "ref": digest(ref.body), "refst": ref.status, "uri": fmt.Sprintf("%+v", ask), "hdr": strings.Join(h["Accept-Encoding"], " || "), "err": x.err, "shape": "", "n": 0, "want": w.counts[c.T],
		"skel": "", "twin": "", "shown": true, "missed": ""}
	switch c.P {
	case "json", "one", "probe":
		e["shape"], e["n"] = jsonShape(b)
	case "html":
		sk, tx := skeleton(string(b))
		tr, _, _ := unpack(refs["twin"+c.P+c.T])
		sk2, _ := skeleton(string(tr))
		e["skel"], e["twin"] = digest([]byte(sk)), digest([]byte(sk2))
		for _, s := range w.texts[w.targets[c.T]] {
			if !strings.Contains(tx, s) && strings.ToValidUTF8(s, "") == s {
				e["shown"], e["missed"] = false, s
			}
		}
	}
	return e
}

func httpHistory(rng *rand.Rand, i int, all []*httpCase, base string) []rec {
	size := []int{2, 6, 6, 15, 60}[rng.Intn(5)]
	if i == 3 {
		size = 900
	}
	tx := httpTexts(rng)
	part := len(all)
	if i == 4 && *fShard%4 == 0 {
		// very long responses
		some := tx
		part /= 4
		size = 4
		big := strings.Repeat("0123456789 & \"x\" <y>\n", 50000)
		tx = func(kind string, i int) string {
			if kind == "value" {
				return big[i%7:]
			}
			return some(kind, i)
		}
	}
	seed := rng.Int63()
	w := newHTTPWorld(rand.New(rand.NewSource(seed)), base+"a", tx, size)
	twin := newHTTPWorld(rand.New(rand.NewSource(seed)), base+"b", harmless, size)
	defer tricorder.UnregisterPath(base + "a")
	defer tricorder.UnregisterPath(base + "b")
	refs := map[string]*httpResp{}
	for _, c := range all {
		if refs[c.P+c.T] == nil {
			refs[c.P+c.T] = inMemory(httpAsk{method: "GET", uri: uriOf(w, &httpCase{P: c.P, T: c.T})}, nil)
			refs["twin"+c.P+c.T] = inMemory(httpAsk{method: "GET", uri: uriOf(twin, &httpCase{P: c.P, T: c.T})}, nil)
		}
	}
	var mu sync.Mutex
	ev := []rec{}
	var wg sync.WaitGroup
	k := []int{1, 1, 4}[i%3] // concurrent clients
	for j := 0; j < k; j++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		perm := r.Perm(len(all))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, n := range perm[:part/k/2] {
				get := inMemory
				if r.Intn(3) == 0 {
					get = overTCP
				}
				e := httpEvent(r, w, twin, all[n], get, refs)
				mu.Lock()
				ev = append(ev, e)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return ev
}

func init() {
	commands["http"] = func() {
		var all []*httpCase
		save := *fShards
		*fShards = 1
		sh := *fShard
		*fShard = 0
		cases(func(i int, raw json.RawMessage) {
			c := &httpCase{}
			if err := json.Unmarshal(raw, c); err != nil {
				fatal(err)
			}
			all = append(all, c)
		})
		*fShards, *fShard = save, sh
		tr := newTrace()
		defer tr.close()
		for i := 0; i < *fN; i++ {
			rng := newRand((*fSeed*1000003+int64(i))*64+int64(*fShard), "http")
			guard(c22, "requests over HTTP", nil)
			ev := httpHistory(rng, i, all, fmt.Sprintf("/ht%d-%d", *fShard, i))
			unguard()
			tr.put(rec{"ev": ev})
			count("histories", 1)
			count("requests", len(ev))
		}
	}
}
