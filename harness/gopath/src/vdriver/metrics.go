package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// mobj is something registered as a metric in the terms of Metrics.tla.
type mobj struct {
	id    int
	w, t  string
	k     *goKind // nil for distributions
	v     reflect.Value
	cur   []interface{} // API values it should report
	nilT  bool          // a nil time pointer
	alt   []interface{} // a function that gives these in turn
	n     int
	list  *tricorder.List
	dist  anyDist
	unit  units.Unit // of a distribution, once fixed
	fixed bool
}

func (o *mobj) kinds() (kind, sub types.Type) {
	switch o.w {
	case "list":
		return types.List, o.k.kind
	case "dist":
		return types.Dist, ""
	}
	return o.k.kind, ""
}

func kindOfType(t string) *goKind {
	if t == "*time" {
		return kindNamed("time")
	}
	return kindNamed(t)
}

func newObj(rng *rand.Rand, w, t string) *mobj {
	o := &mobj{w: w, t: t}
	if w == "dist" {
		b := []*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.NewArbitraryBucketer(1, 5, 10), tricorder.NewLinearBucketer(4, -2.5, 2.5),
			tricorder.NewArbitraryBucketer(-1.25e-7, 1.5e-7, 0.0123456789, 3), tricorder.NewGeometricBucketer(1e-8, 0.03), tricorder.NewExponentialBucketer(70, 1e-9, 1.7),
			tricorder.NewArbitraryBucketer(0.0000012345), tricorder.NewArbitraryBucketer(-123456789.125, 0, 98765432109)}[rng.Intn(8)]
		o.dist = newAnyDist(b, []string{"cum", "non"}[rng.Intn(2)])
		return o
	}
	o.k = kindOfType(t)
	switch w {
	case "list":
		o.list = tricorder.NewList(reflect.MakeSlice(reflect.SliceOf(o.k.t), 0, 0).Interface(), rng.Intn(2) == 0)
		o.cur = []interface{}{}
	default:
		o.v = reflect.New(o.k.t).Elem()
		if t == "*time" {
			o.v = reflect.New(reflect.PtrTo(o.k.t)).Elem()
			o.nilT = true
		}
		o.cur = []interface{}{o.k.vals[0]}
	}
	return o
}

// metric is what to pass to RegisterMetric.
func (o *mobj) metric() interface{} {
	switch o.w {
	case "list":
		return o.list
	case "dist":
		return o.dist.metric()
	case "var":
		return o.v.Addr().Interface()
	}
	var in []reflect.Type
	if o.w == "vfunc" {
		in = []reflect.Type{rt([]string{})}
	}
	t := o.v.Type()
	f := reflect.FuncOf(in, []reflect.Type{t}, o.w == "vfunc")
	return reflect.MakeFunc(f, func([]reflect.Value) []reflect.Value {
		if o.alt != nil {
			x := o.alt[o.n%len(o.alt)]
			o.n++
			return []reflect.Value{convertTo(x, t)}
		}
		r := reflect.New(t).Elem()
		r.Set(o.v)
		return []reflect.Value{r}
	}).Interface()
}

// set gives it values of the API's types.
func (o *mobj) set(rng *rand.Rand, vals []interface{}) {
	o.alt, o.cur, o.nilT = nil, vals, false
	if o.w == "list" {
		s := reflect.MakeSlice(reflect.SliceOf(o.k.t), 0, len(vals))
		for _, v := range vals {
			s = reflect.Append(s, convertTo(v, o.k.t))
		}
		o.list.Change(s.Interface(), rng.Intn(2) == 0)
		return
	}
	v := convertTo(vals[0], o.k.t)
	if o.t == "*time" {
		if vals[0].(time.Time).IsZero() && rng.Intn(2) == 0 {
			o.v.Set(reflect.Zero(o.v.Type()))
			o.nilT = true
			return
		}
		p := reflect.New(o.k.t)
		p.Elem().Set(v)
		v = p
	}
	o.v.Set(v)
}

func (o *mobj) want() []string {
	r := []string{}
	for _, v := range o.cur {
		r = append(r, canon(v))
	}
	return r
}

// ---- registering through the various functions ----

type mworld struct {
	rng    *rand.Rand
	base   string
	groups []*tricorder.Group // index 0: the default group
	regs   map[string]*mreg   // by path
}

type mreg struct {
	o    *mobj
	path string
	unit units.Unit
	desc string
	g    int
}

var mUnits = []units.Unit{units.None, units.None, units.Second, units.Millisecond, units.Byte, units.BytePerSecond, units.Celsius, units.Unknown, "furlongs"}
var mDescs = []string{"a description", "", "with \"quotes\" & <tags>", "日本語", "x; unit: y", "a|b {{.}}", "trailing ", "'); alert(1)", "(nested (parens))", "the `name` of it", "`", "two\nlines\r\n", "tab\there", "%d %s %%", "back\\slash \\n", "\u00a0", " leading", "\x1b[0m", "unit: a)</span><br>", "\ufeffbom \u2028",
	strings.Repeat("long ", 100)}

// place registers by one of the functions that exist for it.
func place(rng *rand.Rand, base, rel string, m interface{}, g *tricorder.Group, unit units.Unit, desc string) error {
	path := base + "/" + rel
	def := g == nil
	if def {
		g = tricorder.DefaultGroup
	}
	n := rng.Intn(8)
	if n >= 4 {
		d, err := tricorder.RegisterDirectory(base)
		if err != nil {
			return err
		}
		switch {
		case n == 4:
			return tricorder.DirectoryGroup{Group: g, Directory: d}.RegisterMetric(rel, m, unit, desc)
		case n < 7 && def:
			return d.RegisterMetric(rel, m, unit, desc)
		}
		return d.RegisterMetricInGroup(rel, m, g, unit, desc)
	}
	switch {
	case n == 0:
		return g.RegisterMetric(path, m, unit, desc)
	case n < 3 && def:
		return tricorder.RegisterMetric(path, m, unit, desc)
	}
	return tricorder.RegisterMetricInGroup(path, m, g, unit, desc)
}

// ---- reading ----

// distText: what the text form tells of a distribution.
func distText(d *messages.Distribution) string {
	f := func(x float64) string { return canon(float32(x)) }
	s := fmt.Sprintf("min %s max %s avg %s med %s sum %s n %d", f(d.Min), f(d.Max), f(d.Average), f(d.Median), f(d.Sum), d.Count)
	for i, r := range d.Ranges {
		if r.Count == 0 {
			continue
		}
		lo, hi := f(r.Lower), f(r.Upper)
		if i == 0 {
			lo = "-"
		}
		if i == len(d.Ranges)-1 {
			hi = "-"
		}
		s += fmt.Sprintf(" [%s %s):%d", lo, hi, r.Count)
	}
	return s
}

// distFull: all of it.
func distFull(d *messages.Distribution) string {
	s := fmt.Sprintf("%s %s %s %s %s %d %d %v", canon(d.Min), canon(d.Max), canon(d.Average), canon(d.Median), canon(d.Sum), d.Count, d.Generation, d.IsNotCumulative)
	for i, r := range d.Ranges {
		lo, hi := canon(r.Lower), canon(r.Upper)
		if i == 0 {
			lo = "-"
		}
		if i == len(d.Ranges)-1 {
			hi = "-"
		}
		s += fmt.Sprintf(" %s %s %d", lo, hi, r.Count)
	}
	return s
}

// textDist reads the text form of a distribution.
func textDist(s string) (string, error) {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return "", fmt.Errorf("distribution is %q", s)
	}
	d := &messages.Distribution{}
	out := ""
	num := func(x string) (string, error) {
		c, err := canonJSON(json.RawMessage(x), types.Float32, "")
		return c, err
	}
	for _, p := range strings.Split(s[1:len(s)-1], ";") {
		i := strings.LastIndex(p, ":")
		if i < 0 {
			return "", fmt.Errorf("part %q", p)
		}
		k, v := p[:i], p[i+1:]
		var err error
		var f float64
		switch k {
		case "min", "max", "avg", "median", "sum":
			_, err = fmt.Sscanf(v, "%g", &f)
			f = float64(float32(f))
			switch k {
			case "min":
				d.Min = f
			case "max":
				d.Max = f
			case "avg":
				d.Average = f
			case "median":
				d.Median = f
			default:
				d.Sum = f
			}
		case "count":
			_, err = fmt.Sscanf(v, "%d", &d.Count)
		default:
			lh := strings.Split(strings.TrimSuffix(strings.TrimPrefix(k, "["), ")"), ",")
			if len(lh) != 2 {
				return "", fmt.Errorf("range %q", p)
			}
			for j := range lh {
				if lh[j] == "-inf" || lh[j] == "inf" {
					lh[j] = "-"
				} else if lh[j], err = num(lh[j]); err != nil {
					return "", err
				}
			}
			out += fmt.Sprintf(" [%s %s):%s", lh[0], lh[1], v)
		}
		if err != nil {
			return "", fmt.Errorf("part %q: %v", p, err)
		}
	}
	return distText(d) + out, nil
}

// listMetrics reads a listing. Text needs to know what is registered.
func listMetrics(path, iface string, known map[string]*mreg) ([]*metObs, error) {
	conv := func(l messages.MetricList) ([]*metObs, error) {
		r := []*metObs{}
		for _, m := range l {
			o, err := obsOf(m)
			if err != nil {
				return nil, err
			}
			r = append(r, o)
		}
		return r, nil
	}
	switch iface {
	case "read":
		return conv(tricorder.ReadMyMetrics(path))
	case "rpc-list":
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		return conv(l)
	case "json-list":
		w := httpGetF(reqURI("/metricsapi", path, ""), nil)
		if w.Code != 200 {
			return nil, fmt.Errorf("status %d", w.Code)
		}
		var l []*jsonMet
		if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
			return nil, err
		}
		if l == nil {
			return nil, fmt.Errorf("null for a listing")
		}
		r := []*metObs{}
		for _, m := range l {
			o, err := obsOfJSON(m)
			if err != nil {
				return nil, err
			}
			r = append(r, o)
		}
		return r, nil
	case "text":
		w := httpGetF(reqURI("/metrics", path, "format=text"), nil)
		if w.Code != 200 {
			return nil, fmt.Errorf("status %d", w.Code)
		}
		r := []*metObs{}
		b := w.Body.String()
		if b == "" || b == "*Path does not exist.*" {
			return r, nil
		}
		if !strings.HasSuffix(b, "\n") {
			return nil, fmt.Errorf("text %q", b)
		}
		for _, line := range strings.Split(b[:len(b)-1], "\n") {
			var m *mreg
			for p, x := range known {
				if strings.HasPrefix(line, p+" ") && (m == nil || len(p) > len(m.path)) {
					m = x
				}
			}
			if m == nil {
				return nil, fmt.Errorf("text line %q", line)
			}
			o, err := textObs(line[len(m.path)+1:], m)
			if err != nil {
				return nil, err
			}
			r = append(r, o)
		}
		return r, nil
	}
	fatal("interface", iface)
	return nil, nil
}

func textObs(s string, m *mreg) (*metObs, error) {
	k, sub := m.o.kinds()
	if k == types.Dist {
		t, err := textDist(s)
		return &metObs{Path: m.path, Kind: k, Vals: []string{t}}, err
	}
	o, err := obsOfText(s, k, sub, m.unit)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	o.Path = m.path
	return o, nil
}

var errMissing = errors.New("missing")

// getMetric reads a single metric; errMissing if there is none.
func getMetric(path, iface string, m *mreg) (*metObs, error) {
	switch iface {
	case "rpc-get":
		r, err := rpcGet(path)
		if err != nil {
			if err.Error() == messages.ErrMetricNotFound.Error() {
				return nil, errMissing
			}
			return nil, err
		}
		return obsOf(r)
	case "json-get":
		w := httpGetF(reqURI("/metricsapi", path, "singleton=true"), nil)
		if w.Code == 404 {
			return nil, errMissing
		}
		if w.Code != 200 {
			return nil, fmt.Errorf("status %d", w.Code)
		}
		var j jsonMet
		if err := json.Unmarshal(w.Body.Bytes(), &j); err != nil {
			return nil, err
		}
		return obsOfJSON(&j)
	case "text":
		w := httpGetF(reqURI("/metrics", path, "format=text"), nil)
		b := w.Body.String()
		if b == "*Path does not exist.*" {
			return nil, errMissing
		}
		if w.Code != 200 || !strings.HasSuffix(b, "\n") {
			return nil, fmt.Errorf("status %d, text %q", w.Code, b)
		}
		if m == nil {
			return nil, fmt.Errorf("text %q", b)
		}
		return textObs(b[:len(b)-1], m)
	}
	l, err := listMetrics(path, iface, nil)
	if err != nil {
		return nil, err
	}
	if len(l) == 0 {
		return nil, errMissing
	}
	if len(l) != 1 {
		return nil, fmt.Errorf("%d metrics", len(l))
	}
	return l[0], nil
}

// htmlOf finds what the page of the path's directory (or its own) says of it.
func htmlOf(page, path string) (value, parens string, items []string, err error) {
	const span = `<span class="parens">`
	at, k := 0, -1
	for {
		j := strings.Index(page[at:], span)
		if j < 0 {
			return "", "", nil, errMissing
		}
		j += at
		b := 0
		for _, end := range []string{"<br>", "</ul>", "</table>", "<body>", "</span>"} {
			if x := strings.LastIndex(page[:j], end); x >= 0 && x+len(end) > b {
				b = x + len(end)
			}
		}
		k = strings.Index(page[j:], "</span>")
		if k < 0 {
			return "", "", nil, fmt.Errorf("page %q", page[j:])
		}
		k += j
		head := strings.TrimLeft(html.UnescapeString(page[b:j]), " \t\n")
		if strings.HasPrefix(head, path+" ") {
			value = strings.TrimSuffix(strings.TrimPrefix(head, path+" "), " ")
			parens = html.UnescapeString(page[j+len(span) : k])
			page = page[k:]
			k = 0
			break
		}
		at = k
	}
	if strings.HasPrefix(parens, "(list of") {
		rest := page
		e := strings.Index(rest, "</ul>")
		if e < 0 {
			return "", "", nil, fmt.Errorf("list %q", rest)
		}
		for _, it := range strings.Split(rest[:e], "<li>")[1:] {
			x := strings.Index(it, "</li>")
			if x < 0 {
				return "", "", nil, fmt.Errorf("item %q", it)
			}
			items = append(items, html.UnescapeString(it[:x]))
		}
	}
	return
}

// ---- the table of Values.tla ----

type valCase struct {
	W, T   string
	Res    []string
	Kind   types.Type
	Sub    types.Type
	Bits   int
	GoType string
}

var valN int

func relName(rng *rand.Rand) string {
	valN++
	return fmt.Sprintf([]string{"m%d", "m %d", "x<%d>", "a\"%d", "α%d", "%d"}[rng.Intn(6)], valN)
}

// randVals: values for one setting of a metric.
func randVals(rng *rand.Rand, k *goKind, list bool, finite bool) []interface{} {
	n := 1
	if list {
		n = []int{0, 1, 2, 3, 5, 40}[rng.Intn(6)]
	}
	r := []interface{}{}
	for len(r) < n {
		r = append(r, randVal(rng, k, finite))
	}
	return r
}

func randVal(rng *rand.Rand, k *goKind, finite bool) interface{} {
	if rng.Intn(3) == 0 {
		return k.vals[rng.Intn(len(k.vals))]
	}
	switch k.api.Kind() {
	case reflect.Bool:
		return rng.Intn(2) == 0
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return reflect.ValueOf(int64(randInt(rng))).Convert(k.api).Interface()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return reflect.ValueOf(randInt(rng)).Convert(k.api).Interface()
	case reflect.Float32:
		f := math.Float32frombits(rng.Uint32())
		if finite && (f != f || math.IsInf(float64(f), 0)) {
			return float32(rng.NormFloat64())
		}
		return f
	case reflect.Float64:
		f := math.Float64frombits(rng.Uint64())
		if finite && (f != f || math.IsInf(f, 0)) {
			return rng.NormFloat64()
		}
		return f
	case reflect.String:
		b := []rune{}
		for n := rng.Intn(12); n > 0; n-- {
			b = append(b, []rune("ab z<>&\"'\\/;:%{}|日é0\t")[rng.Intn(21)])
		}
		if s := string(b); strings.Contains(s, `"`) {
			return strings.ReplaceAll(s, "|", "")
		}
		return string(b)
	}
	if k.api == rt(time.Time{}) {
		return someZone(rng, time.Unix(rng.Int63n(1<<uint(10+rng.Intn(26)))-1<<uint(rng.Intn(34)), rng.Int63n(1e9)))
	}
	return time.Duration(randInt(rng))
}

// checkMetric reads the metric through all interfaces and compares.
func checkMetric(rng *rand.Rand, m *mreg, c *valCase, props []string, raw interface{}) {
	bad := func(what string, d interface{}) {
		mismatch(props, what, d, rec{"case": raw, "path": m.path, "unit": m.unit, "desc": brief([]string{m.desc}), "vals": brief(m.o.want())})
	}
	want := m.o.want()
	for _, iface := range valIfaces {
		o, err := readMetricIn(m, iface)
		if err != nil {
			if iface == "text" && !allTextable(m.o.cur) {
				continue
			}
			bad("not reported by "+iface, err.Error())
			continue
		}
		if iface == "text" && !allTextable(m.o.cur) {
			continue
		}
		w := want
		if !o.exact {
			if !allValid(m.o.cur) {
				continue
			}
			w = foldZeros(w, m.o.k.kind)
		}
		if !reflect.DeepEqual(o.Vals, w) {
			bad("value by "+iface, rec{"got": brief(o.Vals), "want": brief(w)})
		}
		if o.meta && (o.Kind != c.Kind || o.Sub != c.Sub || o.Bits != c.Bits || o.Unit != string(m.unit) || o.Desc != m.desc || o.Path != m.path) {
			bad("description by "+iface, rec{"got": fmt.Sprintf("%q kind %q sub %q bits %d unit %q desc %q", o.Path, o.Kind, o.Sub, o.Bits, o.Unit, o.Desc)})
		}
		if o.exact && o.GoType != c.GoType {
			bad("Go type by "+iface, o.GoType)
		}
	}
	// HTML has no NUL
	if !allTextable(m.o.cur) || strings.Contains(strings.Join(want, ""), "\x00") {
		return
	}
	// HTML
	w := httpGetF(reqURI("/metrics", m.path, ""), nil)
	v, par, items, err := htmlOf(w.Body.String(), m.path)
	if err != nil {
		bad("HTML", fmt.Sprint(err, brief([]string{w.Body.String()})))
		return
	}
	if !strings.Contains(par, m.desc) || m.unit != units.None && m.unit != units.Unknown && !strings.Contains(par, string(m.unit)) {
		bad("HTML description", par)
	}
	k, sub := m.o.kinds()
	el := k
	if k == types.List {
		el = sub
	} else {
		items = []string{v}
	}
	if len(items) != len(want) {
		bad("HTML elements", brief(items))
		return
	}
	if el == types.Bool || el == types.String || el.IsFloat() {
		for i, it := range items {
			o, err := obsOfText(it, el, "", m.unit)
			if err != nil || o.Vals[0] != want[i] {
				bad("HTML value", brief([]string{it, want[i]}))
			}
		}
	}
}

// allValid: no string that JSON cannot represent.
func allValid(vs []interface{}) bool {
	for _, v := range vs {
		if s, ok := v.(string); ok && !utf8.ValidString(s) {
			return false
		}
	}
	return true
}

var rawStrings = []interface{}{"\xff", "a\xc3", "\xf0\x28\x8c\xbc", "\n", "a\nb", "\r\n", "a\"|\"b", "\x00", "a\x00b", "\u2028", "\ufeffx", "\xed\xa0\x80", "\ufffd"}

func allTextable(vs []interface{}) bool {
	for _, v := range vs {
		if !textable(v) {
			return false
		}
	}
	return true
}

func readMetricIn(m *mreg, iface string) (*metObs, error) {
	k, sub := m.o.kinds()
	return readMetric(m.path, iface, k, sub, m.unit)
}

func valRun(rng *rand.Rand, raw json.RawMessage) {
	var c valCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	base := fmt.Sprintf("/val/d%d", rng.Intn(4))
	rel := relName(rng)
	if rng.Intn(3) == 0 {
		rel = "sub/" + rel
	}
	g := []*tricorder.Group{nil, valGroup}[rng.Intn(2)]
	if c.Kind == "" {
		refusedRun(rng, &c, base, rel, g, raw)
		return
	}
	for round := 0; round < 2; round++ {
		o := newObj(rng, c.W, c.T)
		m := &mreg{o: o, path: base + "/" + rel, unit: mUnits[rng.Intn(len(mUnits))], desc: mDescs[rng.Intn(len(mDescs))]}
		// it may have a value already
		if rng.Intn(2) == 0 {
			o.set(rng, []interface{}{o.k.vals[rng.Intn(len(o.k.vals))]})
		}
		spec := o.metric()
		var err error
		if p := catch(func() { err = place(rng, base, rel, spec, g, m.unit, m.desc) }); p != nil || err != nil {
			mismatch([]string{"C12"}, "registration of "+c.W+" "+c.T+" refused", fmt.Sprint(p, err), raw)
			return
		}
		checkMetric(rng, m, &c, []string{"C12"}, raw)
		for i := range o.k.vals {
			vs := []interface{}{o.k.vals[i]}
			if c.W == "list" {
				for n := rng.Intn(4); n > 0; n-- {
					vs = append(vs, o.k.vals[rng.Intn(len(o.k.vals))])
				}
			}
			o.set(rng, vs)
			checkMetric(rng, m, &c, []string{"C12"}, raw)
		}
		if o.k.kind == types.String {
			for i := range rawStrings {
				vs := []interface{}{rawStrings[i]}
				if c.W == "list" {
					vs = append(vs, rawStrings[rng.Intn(len(rawStrings))], o.k.vals[rng.Intn(len(o.k.vals))])
				}
				o.set(rng, vs)
				checkMetric(rng, m, &c, []string{"C12"}, raw)
			}
		}
		for i := 0; i < *fN; i++ {
			o.set(rng, randVals(rng, o.k, c.W == "list", true))
			checkMetric(rng, m, &c, []string{"C12"}, raw)
		}
		tricorder.UnregisterPath(m.path)
	}
}

// ---- refused ones ----

type (
	badStruct struct{ A int64 }
	myTime    time.Time
)

var unsupported = map[string]reflect.Type{
	"complex64": rt(complex64(0)), "complex128": rt(complex128(0)), "struct": rt(badStruct{}), "user time": rt(myTime{}), "map": rt(map[string]int64{}),
	"chan": rt(make(chan int64)), "error": reflect.TypeOf((*error)(nil)).Elem(), "interface": reflect.TypeOf((*interface{})(nil)).Elem(),
	"uintptr": rt(uintptr(0)), "unsafe.Pointer": rt(unsafe.Pointer(nil)), "array": rt([2]int64{}), "fn": rt(func() {}), "messages.Distribution": rt(messages.Distribution{}),
	"List": rt(tricorder.List{}), "Cumulative": rt(tricorder.CumulativeDistribution{}), "NonCumulative": rt(tricorder.NonCumulativeDistribution{}),
}

func typeNamed(t string) reflect.Type {
	if x := unsupported[t]; x != nil {
		return x
	}
	if strings.HasPrefix(t, "*") {
		return reflect.PtrTo(typeNamed(t[1:]))
	}
	if strings.HasPrefix(t, "[]") {
		return reflect.SliceOf(typeNamed(t[2:]))
	}
	return kindNamed(t).t
}

// refusedSpec builds something that is no metric.
func refusedSpec(rng *rand.Rand, w, t string) interface{} {
	var ty reflect.Type
	if t != "" {
		ty = typeNamed(t)
	}
	fn := func(in, out []reflect.Type, variadic bool) interface{} {
		return reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func([]reflect.Value) []reflect.Value {
			r := []reflect.Value{}
			for _, o := range out {
				r = append(r, reflect.Zero(o))
			}
			return r
		}).Interface()
	}
	switch w {
	case "nil":
		return nil
	case "value":
		if k := goKindOf(ty); k != nil {
			return convertTo(k.vals[rng.Intn(len(k.vals))], ty).Interface()
		}
		return reflect.Zero(ty).Interface()
	case "nilptr", "niltype":
		return reflect.Zero(reflect.PtrTo(ty)).Interface()
	case "nilfunc":
		return reflect.Zero(reflect.FuncOf(nil, []reflect.Type{ty}, false)).Interface()
	case "args":
		return fn([]reflect.Type{rt(0), rt("")}[:1+rng.Intn(2)], []reflect.Type{ty}, false)
	case "vargs":
		return fn([]reflect.Type{rt(0), rt([]int{})}, []reflect.Type{ty}, true)
	case "var":
		return reflect.New(ty).Interface()
	case "func":
		return fn(nil, []reflect.Type{ty}, false)
	case "res0":
		return fn(nil, nil, false)
	case "res2":
		return fn(nil, []reflect.Type{ty, reflect.TypeOf((*error)(nil)).Elem()}, false)
	}
	fatal("way", w)
	return nil
}

func goKindOf(t reflect.Type) *goKind {
	for i := range goKinds {
		if goKinds[i].t == t {
			return &goKinds[i]
		}
	}
	return nil
}

func refusedRun(rng *rand.Rand, c *valCase, base, rel string, g *tricorder.Group, raw json.RawMessage) {
	c14 := []string{"C14"}
	bad := func(what string, d interface{}) { mismatch(c14, what, d, raw) }
	n := int64(4711)
	nb := base + "/neighbour"
	tricorder.UnregisterPath(nb)
	if err := tricorder.RegisterMetric(nb, &n, units.None, "neighbour"); err != nil {
		fatal(err)
	}
	path := base + "/" + rel
	list := func() string {
		l := []string{}
		for _, m := range tricorder.ReadMyMetrics("/val") {
			l = append(l, m.Path)
		}
		j, err := listMetrics("/val", "json-list", nil)
		if err != nil {
			return err.Error()
		}
		for _, m := range j {
			l = append(l, m.Path)
		}
		return strings.Join(l, "\n")
	}
	unit := mUnits[rng.Intn(len(mUnits))]
	try := func(what string) {
		var err error
		spec := refusedSpec(rng, c.W, c.T)
		p := catch(func() { err = place(rng, base, rel, spec, g, unit, "refused") })
		got := errName(err)
		if p != nil {
			got = "panic"
		}
		if !in(got, c.Res) && !(what == "again" && got == "inuse") {
			bad(fmt.Sprintf("registering %s %s gives %s", c.W, c.T, got), fmt.Sprint(p))
		}
	}
	var before, after string
	if p := catch(func() { before = list() }); p != nil {
		fatal("listing panics", p)
	}
	try("first")
	if p := catch(func() {
		after = list()
		for _, i := range []string{"read", "rpc-get", "json-get", "text"} {
			if o, err := getMetric(path, i, nil); err != errMissing {
				bad("something refused is reported by "+i, fmt.Sprint(o, err))
			}
		}
	}); p != nil {
		bad("a request panics after a refused registration", fmt.Sprint(p))
		tricorder.UnregisterPath(path)
		return
	}
	if before != after {
		bad("a refused registration changed the listing", rec{"before": before, "after": after})
	}
	v := int64(rng.Intn(1000))
	if err := place(rng, base, rel, &v, g, unit, "good"); err != nil {
		bad("a valid registration after a refused one fails", err.Error())
	} else {
		try("again")
		for _, i := range []string{"read", "rpc-get", "json-get", "text"} {
			o, err := getMetric(path, i, &mreg{o: &mobj{w: "var", k: kindNamed("int64")}, path: path, unit: unit})
			if err != nil || o.Vals[0] != fmt.Sprint(v) {
				bad("a metric at a path refused before is not reported by "+i, fmt.Sprint(o, err))
			}
		}
	}
	tricorder.UnregisterPath(path)
}

var valGroup = tricorder.NewGroup()

func init() {
	commands["values"] = func() {
		cases(func(i int, raw json.RawMessage) {
			rng := newRand(*fSeed*100003+int64(i), "values")
			guard([]string{"C12", "C14"}, "values", func() interface{} { return raw })
			valRun(rng, raw)
			unguard()
		})
	}
}
