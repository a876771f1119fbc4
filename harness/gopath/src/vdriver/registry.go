package main

import (
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// Names whose order, prefixes or characters are unusual. All are legal names.
var oddNames = []string{
	"a", "b", "a-b", "a.b", "a b", "A", "B", "aa", "ab", "Z", "z", "0", "00", "1", "10", "2", "-", "_",
	"foo", "foobar", "foo-bar", "foo.bar", "foo_bar", "Foo", "FOO", "fo", "f",
	" a", "a ", "  x  ", "\u00fc", "\u00e9t\u00e9", "\u65e5\u672c", "\u2603", "z\u0301", "\xff\xfe",
	"?q=1", "a?b", "a#b", "#", "%", "%2F", "%41", "a%20b", "+", "a+b", "&", "<b>", "\"", "'", "a&amp;b",
	"a;b", "a:b", "a,b", "a=b", "a\\b", "~", "!", "$HOME", "*", "(x)", "[x]", "{x}", "|", "^", "`",
	"metrics", "proc", "metricsapi", "a\tb", "nil", "null", "true", "singleton", "...", "..a", ".a", "a.",
	strings.Repeat("n", 300), "index.html", "x-1", "x-10", "x-2", "\x7f", "\x01",
	"a.json", "a.html", "a.txt", "a.gz", "json", "text", "api", "metricsstatic", "favicon.ico", "robots.txt", "healthz", "a@b", "@", "a\u00a0b", "\u200b",
}

// Names no HTTP path can address (the mux cleans them away).
var dotNames = []string{".", ".."}

var blanks = []string{"", "", "", " ", "  ", "\t", "\n", "\u00a0", "\u2003", " \t "}

func hasDot(names []string) bool {
	for _, n := range names {
		// JSON cannot represent invalid UTF-8
		if n == "." || n == ".." || !utf8.ValidString(n) {
			return true
		}
	}
	return false
}

// spell writes a path in one of the ways that mean the same.
func spell(parts []string, rng *rand.Rand) string {
	switch rng.Intn(4) {
	case 0:
		return strings.Join(parts, "/")
	case 1:
		return "/" + strings.Join(parts, "/")
	}
	var out []string
	blank := func() {
		for rng.Intn(4) == 0 {
			out = append(out, blanks[rng.Intn(len(blanks))])
		}
	}
	blank()
	if rng.Intn(2) == 0 {
		out = append(out, "")
	}
	for _, p := range parts {
		blank()
		out = append(out, p)
	}
	blank()
	if rng.Intn(3) == 0 {
		out = append(out, "")
	}
	return strings.Join(out, "/")
}

func absPath(parts []string) string { return "/" + strings.Join(parts, "/") }

// pv is a path and the value reported for it.
type pv struct {
	P string
	V int64
}

func listRead(path string) ([]pv, error) { return fromMetrics(tricorder.ReadMyMetrics(path)) }

func fromMetrics(l messages.MetricList) ([]pv, error) {
	r := []pv{}
	for _, m := range l {
		v, ok := m.Value.(int64)
		if !ok {
			return nil, fmt.Errorf("%q reported as %T", m.Path, m.Value)
		}
		r = append(r, pv{m.Path, v})
	}
	return r, nil
}

func listRPC(path string) ([]pv, error) {
	l, err := rpcList(path)
	if err != nil {
		return nil, err
	}
	return fromMetrics(l)
}

func listJSON(path string) ([]pv, error) {
	w := httpGetF(reqURI("/metricsapi", path, ""), nil)
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d", w.Code)
	}
	var l []struct {
		Path  string
		Value int64
	}
	if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
		return nil, fmt.Errorf("json: %v in %q", err, w.Body.String())
	}
	r := []pv{}
	for _, m := range l {
		r = append(r, pv{m.Path, m.Value})
	}
	return r, nil
}

// listText reads the text listing of a directory.
func listText(path string) ([]pv, error) {
	w := httpGetF(reqURI("/metrics", path, "format=text"), nil)
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d", w.Code)
	}
	r := []pv{}
	b := w.Body.String()
	if b == "" {
		return r, nil
	}
	for _, line := range strings.Split(strings.TrimSuffix(b, "\n"), "\n") {
		i := strings.LastIndex(line, " ")
		if i < 0 {
			return nil, fmt.Errorf("text line %q", line)
		}
		v, err := strconv.ParseInt(line[i+1:], 10, 64)
		if err != nil {
			return nil, fmt.Errorf("text line %q", line)
		}
		r = append(r, pv{line[:i], v})
	}
	return r, nil
}

var (
	reLink   = regexp.MustCompile(`<a href="([^"]*)">([^<]*)</a><br>`)
	reMetric = regexp.MustCompile(`(?s)(/[^<]*?) (-?[0-9,]+) <span class="parens">\(([a-z0-9]+): ([^<]*)\)</span><br>`)
)

func htmlUnesc(s string) string { return html.UnescapeString(s) }

// crawlHTML follows the links from path and returns the metrics shown and the
// texts of the links followed.
func crawlHTML(uri string, depth int, out *[]pv, links *[]string) error {
	w := httpGetF(uri, nil)
	if w.Code != 200 {
		return fmt.Errorf("%s: status %d", uri, w.Code)
	}
	body := w.Body.String()
	for _, m := range reMetric.FindAllStringSubmatch(body, -1) {
		v, err := strconv.ParseInt(strings.ReplaceAll(m[2], ",", ""), 10, 64)
		if err != nil {
			return fmt.Errorf("html value %q", m[2])
		}
		*out = append(*out, pv{htmlUnesc(m[1]), v})
	}
	if depth > 12 {
		return fmt.Errorf("links go deeper than the tree")
	}
	base, _ := url.Parse("http://host" + uri)
	for _, m := range reLink.FindAllStringSubmatch(body, -1) {
		u, err := base.Parse(htmlUnesc(m[1]))
		if err != nil {
			return fmt.Errorf("bad link %q", m[1])
		}
		*links = append(*links, htmlUnesc(m[2]))
		if err := crawlHTML(u.RequestURI(), depth+1, out, links); err != nil {
			return err
		}
	}
	return nil
}

func sortPV(l []pv) {
	sort.Slice(l, func(i, j int) bool { return l[i].P < l[j].P || l[i].P == l[j].P && l[i].V < l[j].V })
}

func eqPV(a, b []pv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------

type regAct struct {
	Op, Res   string
	Base, Rel []int
	Fresh     [][]int
}

type regInfo struct {
	St struct {
		M, D, S [][]int
	}
	List [][]int
	Look []struct {
		P []int
		R string
	}
}

type regSUT struct {
	g       *Graph
	infos   []*regInfo
	rng     *rand.Rand
	names   []string // names[i] for model name i+1
	noHTTP  bool
	noText  bool
	next    int64
	vals    map[string]int64 // absolute path -> value of the metric there
	handles map[string]*tricorder.DirectorySpec
	stale   map[string]*tricorder.DirectorySpec
	group   *tricorder.Group
	groups  []*tricorder.Group
	conc    []string
}

func (r *regSUT) info(i int) *regInfo {
	if r.infos[i] == nil {
		x := &regInfo{}
		if r.g.Info[i] == nil {
			fatal("no info for state", string(r.g.States[i]))
		}
		if err := json.Unmarshal(r.g.Info[i], x); err != nil {
			fatal(err)
		}
		r.infos[i] = x
	}
	return r.infos[i]
}

func (r *regSUT) parts(p []int) []string {
	out := make([]string, len(p))
	for i, n := range p {
		out[i] = r.names[n-1]
	}
	return out
}

func key(p []int) string { return fmt.Sprint(p) }

// nearNames are names that differ in single unusual characters.
func nearNames(rng *rand.Rand) []string {
	base := []string{"x", "xy", "metric", "\u00fc", "0"}[rng.Intn(5)]
	if rng.Intn(3) == 0 {
		base = strings.Repeat(base, []int{9, 17, 33, 65, 129, 257, 600}[rng.Intn(7)])
	}
	l := []string{base}
	for len(l) < 40 {
		c := string(rune(1 + rng.Intn(0x7f)))
		if rng.Intn(3) == 0 {
			c = []string{"\u0085", "\u00a0", "\u00ad", "\u1680", "\u2003", "\u200b", "\u200d", "\u2028", "\u2029", "\u3000", "\ufeff", "\ufffd", "\r\n", "\U0001f600", "\u0301", "\r", "\n", "\t", "\v", "\f", "\x1b", "\\", "\x7f"}[rng.Intn(23)]
		}
		if c == "/" {
			continue
		}
		switch rng.Intn(5) {
		case 0:
			l = append(l, c+base)
		case 1:
			l = append(l, base+c)
		case 2:
			l = append(l, base+c+base)
		case 3:
			l = append(l, c+base+c)
		case 4:
			l = append(l, base+c+c)
		}
	}
	return l
}

func pickNames(rng *rand.Rand, n int) []string {
	for {
		var l []string
		pool := oddNames
		switch rng.Intn(4) {
		case 0:
			pool = oddNames[:27] // related names
		case 1:
			pool = nearNames(rng)
		}
		seen := map[string]bool{}
		for len(l) < n {
			s := pool[rng.Intn(len(pool))]
			if rng.Intn(40) == 0 {
				s = dotNames[rng.Intn(2)]
			}
			if !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
		sort.Strings(l)
		return l
	}
}

func (r *regSUT) Reset(init int, rng *rand.Rand) bool {
	r.rng = rng
	n := 0
	for _, nm := range r.names {
		tricorder.UnregisterPath(nm)
		n++
	}
	if n == 0 {
		tricorder.UnregisterPath("/proc")
	}
	if l := tricorder.ReadMyMetrics("/"); len(l) != 0 {
		mismatch([]string{"C08", "C09"}, "unregistering every top level name leaves metrics", l, r.conc)
		return false
	}
	r.names = pickNames(rng, r.nNames())
	r.noHTTP = hasDot(r.names)
	r.noText = strings.ContainsAny(strings.Join(r.names, ""), "\n")
	r.vals = map[string]int64{}
	r.handles = map[string]*tricorder.DirectorySpec{}
	r.stale = map[string]*tricorder.DirectorySpec{}
	r.conc = append([]string(nil), r.names...)
	if r.groups == nil {
		for i := 0; i < 3; i++ {
			r.groups = append(r.groups, tricorder.NewGroup())
		}
	}
	root, err := tricorder.GetDirectory("/")
	if err != nil {
		mismatch([]string{"C07"}, "looking up the root fails", err.Error(), nil)
		return false
	}
	r.handles[key(nil)] = root
	return true
}

func (r *regSUT) nNames() int {
	if *fMode == "3" {
		return 3
	}
	return 2
}

func (r *regSUT) describe(replay func() interface{}) interface{} {
	return map[string]interface{}{"names": r.conc, "walk": replay()}
}

func (r *regSUT) regMetric(d *tricorder.DirectorySpec, isRoot bool, path string, v *int64) error {
	g := r.groups[r.rng.Intn(len(r.groups))]
	if isRoot && r.rng.Intn(2) == 0 {
		switch r.rng.Intn(3) {
		case 0:
			return tricorder.RegisterMetric(path, v, units.None, "d")
		case 1:
			return tricorder.RegisterMetricInGroup(path, v, g, units.None, "d")
		default:
			return g.RegisterMetric(path, v, units.None, "d")
		}
	}
	switch r.rng.Intn(3) {
	case 0:
		return d.RegisterMetric(path, v, units.None, "d")
	case 1:
		return d.RegisterMetricInGroup(path, v, g, units.None, "d")
	default:
		return tricorder.DirectoryGroup{Group: g, Directory: d}.RegisterMetric(path, v, units.None, "d")
	}
}

func (r *regSUT) Step(act json.RawMessage, target int, replay0 func() interface{}) bool {
	var a regAct
	if err := json.Unmarshal(act, &a); err != nil {
		fatal(err)
	}
	replay := func() interface{} { return r.describe(replay0) }
	prop := map[string]string{"RegMetric": "C06", "RegDir": "C07", "Unreg": "C08", "UnregDir": "C08"}[a.Op]
	isStale := strings.HasPrefix(a.Op, "Stale")
	if isStale {
		prop = "C08"
	}
	guard([]string{prop}, a.Op, replay)
	defer unguard()
	bad := func(props []string, what string, detail interface{}) bool {
		mismatch(props, fmt.Sprintf("after %s base=%v rel=%v (%q): %s", a.Op, a.Base, a.Rel, r.parts(append(append([]int{}, a.Base...), a.Rel...)), what), detail, replay())
		return false
	}
	isRoot := len(a.Base) == 0
	var h *tricorder.DirectorySpec
	if isStale {
		h = r.stale[key(a.Base)]
	} else {
		h = r.handles[key(a.Base)]
	}
	if h == nil {
		fatal("no handle for", a.Base, a.Op)
	}
	info := r.info(target)
	path := spell(r.parts(a.Rel), r.rng)
	op := strings.TrimPrefix(a.Op, "Stale")
	var err error
	var dir *tricorder.DirectorySpec
	var val int64
	p := catch(func() {
		switch op {
		case "RegMetric":
			r.next++
			val = r.next
			v := val
			err = r.regMetric(h, isRoot, path, &v)
		case "RegDir":
			if isRoot && r.rng.Intn(2) == 0 {
				dir, err = tricorder.RegisterDirectory(path)
			} else {
				dir, err = h.RegisterDirectory(path)
			}
		case "Unreg":
			if isRoot && r.rng.Intn(2) == 0 {
				tricorder.UnregisterPath(path)
			} else {
				h.UnregisterPath(path)
			}
		case "UnregDir":
			h.UnregisterDirectory()
		default:
			fatal("unknown op", a.Op)
		}
	})
	if p != nil {
		return bad([]string{prop}, fmt.Sprint("panic: ", p), nil)
	}
	full := append(append([]int{}, a.Base...), a.Rel...)
	if !isStale && errName(err) != a.Res {
		return bad([]string{prop}, fmt.Sprintf("result %s, specification %s", errName(err), a.Res), path)
	}
	// bookkeeping as the specification prescribes
	if op == "RegMetric" && a.Res == "ok" {
		r.vals[absPath(r.parts(full))] = val
	}
	for _, f := range a.Fresh {
		r.stale[key(f)] = r.handles[key(f)]
	}
	live := map[string]bool{key(nil): true}
	for _, d := range info.St.D {
		live[key(d)] = true
	}
	for k := range r.handles {
		if !live[k] {
			delete(r.handles, k)
		}
	}
	keep := map[string]bool{}
	for _, s := range info.St.S {
		keep[key(s)] = true
	}
	for k := range r.stale {
		if !keep[k] {
			delete(r.stale, k)
		}
	}
	if op == "RegDir" && a.Res == "ok" {
		if old := r.handles[key(full)]; old != nil && old != dir {
			return bad([]string{"C07"}, "registering an existing directory returned another handle", nil)
		}
		if dir == nil {
			return bad([]string{"C07"}, "nil handle", nil)
		}
		r.handles[key(full)] = dir
	}
	if op == "RegDir" && a.Res == "inuse" && dir != nil {
		return bad([]string{"C07"}, "a failing registration returned a handle", nil)
	}
	// lookups of every path
	count("observations", len(info.Look)+1)
	for _, lk := range info.Look {
		sp := spell(r.parts(lk.P), r.rng)
		d, err := tricorder.GetDirectory(sp)
		if errName(err) != lk.R {
			return bad([]string{"C07", prop}, fmt.Sprintf("lookup of %q: %s, specification %s", sp, errName(err), lk.R), nil)
		}
		if (d != nil) != (err == nil) {
			return bad([]string{"C07"}, fmt.Sprintf("lookup of %q: handle %v with %s", sp, d != nil, errName(err)), nil)
		}
		if lk.R == "ok" {
			k := key(lk.P)
			if old := r.handles[k]; old == nil {
				r.handles[k] = d
			} else if old != d {
				return bad([]string{"C07", prop}, fmt.Sprintf("lookup of %q gives another handle than before", sp), nil)
			}
			if ap := d.AbsPath(); ap != absPath(r.parts(lk.P)) {
				return bad([]string{"C07"}, fmt.Sprintf("handle of %q says its path is %q", sp, ap), nil)
			}
		}
	}
	// the listing of everything
	var want []pv
	for _, m := range info.List {
		ap := absPath(r.parts(m))
		want = append(want, pv{ap, r.vals[ap]})
	}
	got, lerr := listRead(spell(nil, r.rng))
	if lerr != nil || !eqPV(got, want) {
		return bad([]string{prop, "C09"}, "listing of /", map[string]interface{}{"got": got, "want": want, "err": fmt.Sprint(lerr)})
	}
	// one more path through one more interface
	lk := info.Look[r.rng.Intn(len(info.Look))]
	return r.observe(lk.P, lk.R, want, bad)
}

func (r *regSUT) observe(p []int, look string, all []pv, bad func([]string, string, interface{}) bool) bool {
	parts := r.parts(p)
	ap := absPath(parts)
	sp := spell(parts, r.rng)
	want := []pv{}
	isMetric := false
	for _, e := range all {
		if e.P == ap {
			isMetric = true
		}
		if e.P == ap || strings.HasPrefix(e.P, strings.TrimSuffix(ap, "/")+"/") {
			want = append(want, e)
		}
	}
	if isMetric && len(want) != 1 {
		fatal("metric with descendants in the specification", ap)
	}
	count("observations", 1)
	chk := func(props []string, name string, got []pv, err error) bool {
		if err != nil || !eqPV(got, want) {
			return bad(props, fmt.Sprintf("%s of %q", name, sp), map[string]interface{}{"got": got, "want": want, "err": fmt.Sprint(err)})
		}
		return true
	}
	single := func(name string, got *pv, found bool, err error) bool {
		if err != nil || found != isMetric || found && *got != want[0] {
			return bad([]string{"C11"}, fmt.Sprintf("%s of %q", name, sp), map[string]interface{}{"got": got, "found": found, "want": want, "err": fmt.Sprint(err)})
		}
		return true
	}
	k := r.rng.Intn(8)
	if r.noHTTP && k >= 3 {
		k = r.rng.Intn(3)
	}
	switch k {
	case 0:
		got, err := listRead(sp)
		return chk([]string{"C09"}, "in-process listing", got, err)
	case 1:
		got, err := listRPC(sp)
		return chk([]string{"C09", "C11"}, "RPC listing", got, err)
	case 2:
		m, err := rpcGet(sp)
		if err != nil && err.Error() == messages.ErrMetricNotFound.Error() {
			return single("RPC GetMetric", nil, false, nil)
		}
		if err != nil {
			return single("RPC GetMetric", nil, false, err)
		}
		v, _ := m.Value.(int64)
		return single("RPC GetMetric", &pv{m.Path, v}, true, nil)
	case 3:
		got, err := listJSON(sp)
		return chk([]string{"C09", "C11"}, "JSON listing", got, err)
	case 4:
		w := httpGetF(reqURI("/metricsapi", sp, "singleton=true"), nil)
		if w.Code == 404 {
			return single("JSON singleton", nil, false, nil)
		}
		var m struct {
			Path  string
			Value int64
		}
		err := json.Unmarshal(w.Body.Bytes(), &m)
		if w.Code != 200 {
			err = fmt.Errorf("status %d", w.Code)
		}
		return single("JSON singleton", &pv{m.Path, m.Value}, true, err)
	case 5, 6:
		if r.noText {
			return true
		}
		if look == "ok" {
			got, err := listText(sp)
			return chk([]string{"C09", "C11"}, "text listing", got, err)
		}
		w := httpGetF(reqURI("/metrics", sp, "format=text"), nil)
		if isMetric {
			v, err := strconv.ParseInt(strings.TrimSuffix(w.Body.String(), "\n"), 10, 64)
			return single("text of metric", &pv{ap, v}, true, err)
		}
		if !strings.Contains(strings.ToLower(w.Body.String()), "not exist") {
			return bad([]string{"C11"}, fmt.Sprintf("text of missing path %q", sp), w.Body.String())
		}
		return true
	default:
		if look == "notfound" || look == "inuse" && !isMetric {
			w := httpGetF(reqURI("/metrics", sp, ""), nil)
			if !strings.Contains(strings.ToLower(w.Body.String()), "not exist") {
				return bad([]string{"C11"}, fmt.Sprintf("HTML of missing path %q", sp), w.Body.String())
			}
			return true
		}
		var got []pv
		var links []string
		err := crawlHTML(reqURI("/metrics", sp, ""), 0, &got, &links)
		// control characters and invalid UTF-8 are shown replaced
		if strings.ContainsAny(ap, "\x7f\x01\t\n") || strings.Contains(strings.Join(r.names, ""), "\xff") {
			if err != nil || len(got) != len(want) {
				return bad([]string{"C11"}, fmt.Sprintf("HTML pages from %q", sp), fmt.Sprint(err, len(got), len(want)))
			}
			return true
		}
		g2 := append([]pv{}, got...)
		w2 := append([]pv{}, want...)
		sortPV(g2)
		sortPV(w2)
		if err != nil || !eqPV(g2, w2) {
			return bad([]string{"C11"}, fmt.Sprintf("HTML pages reached from %q", sp), map[string]interface{}{"got": g2, "want": w2, "err": fmt.Sprint(err)})
		}
		return true
	}
}

func init() {
	commands["registry-mbt"] = func() {
		g := loadGraph(*fGraph)
		rng := newRand(*fSeed, fmt.Sprint("registry", *fShard))
		tour(g, &regSUT{g: g, infos: make([]*regInfo, len(g.States))}, rng, *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
}
