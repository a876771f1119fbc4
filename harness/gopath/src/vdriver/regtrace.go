package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// spellRaw spells a path and returns the components as written: 0 = blank.
func spellRaw(path []int, names []string, rng *rand.Rand) (string, []int) {
	parts := make([]string, len(path))
	for i, n := range path {
		parts[i] = names[n-1]
	}
	s := spell(parts, rng)
	raw := []int{}
	for _, c := range strings.Split(s, "/") {
		k := 0
		for i, n := range names {
			if n == c {
				k = i + 1
			}
		}
		raw = append(raw, k)
	}
	return s, raw
}

type regTracer struct {
	rng    *rand.Rand
	names  []string
	rank   map[string]int
	ids    map[*tricorder.DirectorySpec]int
	byID   []*tricorder.DirectorySpec
	ev     []rec
	next   int64
	known  [][]int // paths used so far
	maxDep int
	noHTTP bool
	noText bool
	sut    *regSUT
}

func (t *regTracer) comps(abs string) []int {
	out := []int{}
	if abs == "/" {
		return out
	}
	// names may contain no slash, so this is exact
	for _, c := range strings.Split(strings.TrimPrefix(abs, "/"), "/") {
		r, ok := t.rank[c]
		if !ok {
			r = -1
		}
		out = append(out, r)
	}
	return out
}

func (t *regTracer) id(d *tricorder.DirectorySpec) int {
	if d == nil {
		return -1
	}
	if i, ok := t.ids[d]; ok {
		return i
	}
	i := len(t.byID)
	t.ids[d] = i
	t.byID = append(t.byID, d)
	return i
}

func (t *regTracer) log(r rec) { t.ev = append(t.ev, r) }

func (t *regTracer) randPath(max int) []int {
	rng := t.rng
	var p []int
	if len(t.known) > 0 && rng.Intn(4) != 0 {
		p = append(p, t.known[rng.Intn(len(t.known))]...)
		switch rng.Intn(5) {
		case 0:
			if len(p) > 0 {
				p = p[:rng.Intn(len(p))]
			}
		case 1, 2:
			p = append(p, 1+rng.Intn(len(t.names)))
		case 3:
			if len(p) > 0 {
				p[len(p)-1] = 1 + rng.Intn(len(t.names))
			}
		}
	} else {
		for n := rng.Intn(4); n > 0; n-- {
			p = append(p, 1+rng.Intn(len(t.names)))
		}
	}
	if len(p) > max {
		p = p[:max]
	}
	return p
}

func (t *regTracer) list(p []int) {
	sp, raw := spellRaw(p, t.names, t.rng)
	var got []pv
	var err error
	k := t.rng.Intn(6)
	if t.noHTTP && k >= 2 {
		k = 0
	}
	if k == 3 {
		// the text of a metric or of nothing is not a listing
		if d, e := tricorder.GetDirectory(sp); e != nil || d == nil || t.noText {
			k = 0
		}
	}
	if k == 4 {
		t.page(p)
		k = 0
	}
	switch k {
	case 3:
		got, err = listText(sp)
	case 1:
		got, err = listRPC(sp)
	case 2:
		got, err = listJSON(sp)
	default:
		got, err = listRead(sp)
	}
	out := []rec{}
	if err != nil {
		out = append(out, rec{"p": []int{-9}, "v": -9, "err": err.Error()})
	}
	for _, e := range got {
		out = append(out, rec{"p": t.comps(e.P), "v": e.V})
	}
	t.log(rec{"op": "List", "rel": raw, "got": out, "if": k})
}

// page looks at the HTML page of a path.
func (t *regTracer) page(p []int) {
	sp, raw := spellRaw(p, t.names, t.rng)
	w := httpGetF(reqURI("/metrics", sp, ""), nil)
	body := w.Body.String()
	if strings.HasPrefix(body, "Path does not exist.") {
		t.log(rec{"op": "Page", "rel": raw, "none": true})
		return
	}
	shown := []rec{}
	for _, m := range reMetric.FindAllStringSubmatch(body, -1) {
		v, err := strconv.ParseInt(strings.ReplaceAll(m[2], ",", ""), 10, 64)
		if err != nil {
			v = -9
		}
		shown = append(shown, rec{"p": t.comps(htmlUnesc(m[1])), "v": v})
	}
	links := [][]int{}
	for _, m := range reLink.FindAllStringSubmatch(body, -1) {
		c := []int{-9}
		if u, err := url.Parse(htmlUnesc(m[1])); err == nil && strings.HasPrefix(u.Path, "/metrics/") {
			c = t.comps(strings.TrimPrefix(u.Path, "/metrics"))
		}
		links = append(links, c)
	}
	t.log(rec{"op": "Page", "rel": raw, "none": false, "shown": shown, "links": links})
}

func (t *regTracer) single(p []int) {
	sp, raw := spellRaw(p, t.names, t.rng)
	v := int64(-1)
	k := t.rng.Intn(3)
	if t.noHTTP {
		k = 0
	}
	switch k {
	case 0:
		m, err := rpcGet(sp)
		if err == nil {
			v, _ = m.Value.(int64)
			if fmt.Sprint(t.comps(m.Path)) != fmt.Sprint(append([]int{}, p...)) {
				v = -8
			}
		} else if err.Error() != messages.ErrMetricNotFound.Error() {
			v = -9
		}
	case 1:
		w := httpGetF(reqURI("/metricsapi", sp, "singleton=1"), nil)
		if w.Code != 404 {
			var m struct {
				Path  string
				Value int64
			}
			if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil || w.Code != 200 {
				v = -9
			} else {
				v = m.Value
			}
		}
	case 2:
		// only called for metrics and missing paths by chance: a
		// directory gives a listing, so look at the whole answer
		if _, err := tricorder.GetDirectory(sp); err == nil {
			return
		}
		w := httpGetF(reqURI("/metrics", sp, "format=text"), nil)
		b := strings.TrimSuffix(w.Body.String(), "\n")
		if n, err := strconv.ParseInt(b, 10, 64); err == nil {
			v = n
		}
	}
	t.log(rec{"op": "Get", "rel": raw, "v": v, "if": k})
}

func (t *regTracer) run(steps int) {
	rng := t.rng
	for i := 0; i < steps; i++ {
		b := 0
		if rng.Intn(2) == 0 {
			b = rng.Intn(len(t.byID))
		}
		d := t.byID[b]
		isRoot := b == 0
		// keep absolute depth small: the handle's path counts
		depth := len(t.comps(d.AbsPath()))
		var p []int
		if isRoot {
			p = t.randPath(t.maxDep)
		} else {
			q := t.randPath(t.maxDep)
			if rng.Intn(3) != 0 && len(q) > 1 {
				q = q[len(q)-1:]
			}
			if len(q)+depth > t.maxDep {
				q = q[:max(0, t.maxDep-depth)]
			}
			p = q
		}
		sp, raw := spellRaw(p, t.names, rng)
		full := append(append([]int{}, t.comps(d.AbsPath())...), p...)
		guard([]string{"C06", "C07", "C08", "C09"}, "registry operation", func() interface{} { return t.ev })
		var e rec
		pan := catch(func() {
			switch rng.Intn(10) {
			case 0, 1, 2, 3:
				t.next++
				v := t.next
				e = rec{"op": "RegMetric", "b": b, "rel": raw, "v": v}
				val := v
				e["res"] = errName(t.sut.regMetric(d, isRoot, sp, &val))
			case 4, 5:
				e = rec{"op": "RegDir", "b": b, "rel": raw}
				var nd *tricorder.DirectorySpec
				var err error
				if isRoot && rng.Intn(2) == 0 {
					nd, err = tricorder.RegisterDirectory(sp)
				} else {
					nd, err = d.RegisterDirectory(sp)
				}
				e["res"] = errName(err)
				e["ret"] = t.id(nd)
			case 6, 7:
				if rng.Intn(3) == 0 {
					e = rec{"op": "UnregDir", "b": b}
					d.UnregisterDirectory()
				} else {
					e = rec{"op": "Unreg", "b": b, "rel": raw}
					if isRoot && rng.Intn(2) == 0 {
						tricorder.UnregisterPath(sp)
					} else {
						d.UnregisterPath(sp)
					}
				}
			case 8:
				q := t.randPath(t.maxDep + 1)
				s2, r2 := spellRaw(q, t.names, rng)
				nd, err := tricorder.GetDirectory(s2)
				e = rec{"op": "GetDir", "rel": r2, "res": errName(err), "ret": t.id(nd)}
			case 9:
				e = rec{"op": "Abs", "b": b, "p": t.comps(d.AbsPath())}
			}
		})
		unguard()
		if pan != nil {
			mismatch([]string{"C06", "C07", "C08", "C09"}, fmt.Sprintf("registry operation %v panics: %v", e, pan), nil, t.ev)
			return
		}
		t.log(e)
		if len(full) <= t.maxDep {
			t.known = append(t.known, full)
			if len(t.known) > 60 {
				t.known = append(t.known[:0], t.known[20:]...)
			}
		}
		if e["op"] != "GetDir" && e["op"] != "Abs" {
			t.list(nil)
		}
		if rng.Intn(3) == 0 {
			t.list(t.randPath(t.maxDep))
		}
		if rng.Intn(3) == 0 {
			t.single(t.randPath(t.maxDep))
		}
	}
}

// many registers metrics at paths below handle b. None of them exists, leads
// through a metric, or is a prefix of another.
func (t *regTracer) many(b int, rels [][]int) {
	d := t.byID[b]
	res := "ok"
	v0 := t.next + 1
	raws := [][]int{}
	for _, p := range rels {
		t.next++
		v := t.next
		sp, raw := spellRaw(p, t.names, t.rng)
		raws = append(raws, raw)
		if r := errName(t.sut.regMetric(d, b == 0, sp, &v)); r != "ok" {
			res = r
		}
	}
	t.log(rec{"op": "RegMany", "b": b, "rels": raws, "v": v0, "res": res})
}

// big: directories with very many entries and very deep ones.
func (t *regTracer) big(kind int) {
	rng := t.rng
	all := func() {
		for k := 0; k < 6; k++ {
			t.list(nil)
		}
	}
	switch kind {
	case 0: // one directory with very many metrics, and directories among them
		perm := rng.Perm(len(t.names))
		var rels [][]int
		for i, x := range perm {
			if i%97 == 5 {
				rels = append(rels, []int{1, x + 1, 1 + rng.Intn(len(t.names))})
			} else {
				rels = append(rels, []int{1, x + 1})
			}
		}
		half := len(rels) / 2
		t.many(0, rels[:half])
		all()
		t.many(0, rels[half:])
		all()
		t.page([]int{1})
		for i := 0; i < 12; i++ {
			p := rels[rng.Intn(len(rels))]
			t.single(p)
			t.list(p[:2])
			t.page(p)
			e := rec{"op": "Unreg", "b": 0}
			sp, raw := spellRaw(p[:2], t.names, rng)
			e["rel"] = raw
			tricorder.UnregisterPath(sp)
			t.log(e)
		}
		all()
	case 1: // very deep
		deep := 60 + rng.Intn(140)
		var p []int
		for i := 0; i < deep; i++ {
			p = append(p, 1+rng.Intn(len(t.names)))
		}
		t.many(0, [][]int{p})
		t.list(nil)
		var rels [][]int
		for i := 3; i < deep; i += 3 + rng.Intn(5) {
			q := append([]int{}, p[:i]...)
			q[i-1] = q[i-1]%len(t.names) + 1
			rels = append(rels, q)
		}
		t.many(0, rels)
		all()
		for i := 0; i < 8; i++ {
			q := p[:1+rng.Intn(deep)]
			sp, raw := spellRaw(q, t.names, rng)
			nd, err := tricorder.GetDirectory(sp)
			t.log(rec{"op": "GetDir", "rel": raw, "res": errName(err), "ret": t.id(nd)})
			if nd != nil {
				t.log(rec{"op": "Abs", "b": t.ids[nd], "p": t.comps(nd.AbsPath())})
			}
			t.list(q)
			t.page(q)
			t.single(q)
			t.single(p)
		}
		k := deep / 2
		sp, raw := spellRaw(p[:k], t.names, rng)
		tricorder.UnregisterPath(sp)
		t.log(rec{"op": "Unreg", "b": 0, "rel": raw})
		all()
	case 2: // a broad tree
		var rels [][]int
		for i := 0; i < 22; i++ {
			for j := 0; j < 9; j++ {
				for k := 0; k < 1+rng.Intn(5); k++ {
					rels = append(rels, []int{i + 1, (j*7+i)%len(t.names) + 1, k + 1})
				}
			}
		}
		rng.Shuffle(len(rels), func(i, j int) { rels[i], rels[j] = rels[j], rels[i] })
		t.many(0, rels)
		all()
		for i := 0; i < 6; i++ {
			t.list([]int{1 + rng.Intn(22)})
			t.page([]int{1 + rng.Intn(22)})
		}
		for i := 0; i < 11; i++ {
			q := []int{2*i + 1}
			sp, raw := spellRaw(q, t.names, rng)
			tricorder.UnregisterPath(sp)
			t.log(rec{"op": "Unreg", "b": 0, "rel": raw})
		}
		all()
	}
}

// bigNames are many names of different lengths, in order.
func bigNames(rng *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var l []string
	for len(l) < n {
		s := strconv.Itoa(rng.Intn(4 * n))
		if rng.Intn(3) == 0 {
			s = oddNames[rng.Intn(60)] + s
		}
		if !seen[s] && utf8.ValidString(s) {
			seen[s] = true
			l = append(l, s)
		}
	}
	sort.Strings(l)
	return l
}

func init() {
	commands["registry-trace"] = func() {
		tw := newTrace()
		tricorder.UnregisterPath("/proc")
		rng := newRand(*fSeed, fmt.Sprint("regtrace", *fShard))
		for n := 0; n <= *fN; n++ {
			cnt := 2 + rng.Intn(8)
			if rng.Intn(3) == 0 {
				cnt = 14 + rng.Intn(10)
			}
			t := &regTracer{rng: rng, names: pickNames(rng, cnt), rank: map[string]int{},
				ids: map[*tricorder.DirectorySpec]int{}, maxDep: 2 + rng.Intn(5)}
			if n == *fN {
				// one big history
				switch *fShard % 3 {
				case 0:
					t.names = bigNames(rng, 500+rng.Intn(600))
				case 1:
					// deep, and with long paths
					t.names = bigNames(rng, 4)
					for i := range t.names {
						t.names[i] = "n" + strings.Repeat("x", 20*rng.Intn(12)) + t.names[i]
					}
					sort.Strings(t.names)
				case 2:
					t.names = bigNames(rng, 40)
				}
			}
			t.sut = &regSUT{rng: rng, groups: []*tricorder.Group{tricorder.DefaultGroup, tricorder.NewGroup()}}
			for i, s := range t.names {
				t.rank[s] = i + 1
			}
			t.noHTTP = hasDot(t.names)
			t.noText = strings.ContainsAny(strings.Join(t.names, ""), "\n")
			root, err := tricorder.GetDirectory("")
			if err != nil {
				mismatch([]string{"C07"}, "looking up the root fails", err.Error(), nil)
				return
			}
			t.id(root)
			if n == *fN {
				guard([]string{"C06", "C07", "C08", "C09"}, "registry operations with many metrics", nil)
				t.big(*fShard % 3)
				unguard()
			} else {
				t.run(60 + rng.Intn(120))
			}
			tw.put(t.ev)
			count("events", len(t.ev))
			for _, s := range t.names {
				tricorder.UnregisterPath(s)
			}
			if l := tricorder.ReadMyMetrics("/"); len(l) != 0 {
				mismatch([]string{"C08", "C09"}, "unregistering every top level name leaves metrics", len(l), t.ev)
				break
			}
		}
		tw.close()
	}
}
