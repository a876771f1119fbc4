package main

import (
	"encoding/json"
	"fmt"
	"html"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c27 = []string{"C27"}

type prettyCase struct {
	K      string
	L      []int64
	R      int64
	Suf    string
	Out    []string
	Commas string
}

// prettyVar is a variable and a list with one unit, for HTML.
type prettyVar struct {
	path string
	v    reflect.Value
	l    *tricorder.List
	list bool
	fn   bool
}

var prettyVars = map[string]*prettyVar{}

func prettyMetric(k *goKind, u units.Unit, way string) *prettyVar {
	key := k.name + "/" + string(u) + "/" + way
	if p := prettyVars[key]; p != nil {
		return p
	}
	p := &prettyVar{path: fmt.Sprintf("/pretty/%d", len(prettyVars)), v: reflect.New(k.t), list: way == "list"}
	prettyVars[key] = p
	var m interface{} = p.v.Interface()
	switch way {
	case "list":
		p.l = tricorder.NewList(reflect.MakeSlice(reflect.SliceOf(k.t), 0, 0).Interface(), true)
		m = p.l
	case "fn":
		m = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{k.t}, false), func([]reflect.Value) []reflect.Value {
			return []reflect.Value{p.v.Elem()}
		}).Interface()
	}
	if err := tricorder.RegisterMetric(p.path, m, u, "(pretty)"); err != nil {
		fatal(key, err)
	}
	return p
}

// htmlShown is what the page of the metric (or of its directory) shows as its value.
func htmlShown(p *prettyVar, v reflect.Value) (string, error) {
	if p.list {
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
		s = reflect.Append(s, reflect.Zero(v.Type()), v)
		p.l.Change(s.Interface(), false)
	} else {
		p.v.Elem().Set(v)
	}
	w := httpGetF(reqURI("/metrics", p.path, ""), nil)
	b := w.Body.String()
	i := strings.Index(b, p.path+" ")
	if i < 0 {
		return "", fmt.Errorf("status %d, page %q", w.Code, b)
	}
	b = b[i+len(p.path)+1:]
	if p.list {
		l := strings.Split(b, "<li>")
		if len(l) != 3 {
			return "", fmt.Errorf("page %q", b)
		}
		b = l[2]
		i = strings.Index(b, "</li>")
	} else {
		i = strings.Index(b, " <span")
	}
	if i < 0 {
		return "", fmt.Errorf("page %q", b)
	}
	return html.UnescapeString(b[:i]), nil
}

func limbs(n *big.Int, r int64) []int64 {
	x := new(big.Int).Abs(n)
	var out []int64
	m := new(big.Int)
	for {
		x.DivMod(x, big.NewInt(r), m)
		out = append([]int64{m.Int64()}, out...)
		if x.Sign() == 0 {
			return out
		}
	}
}

// intOf makes x a value of the kind; ok is false if it does not fit.
func intOf(k *goKind, x *big.Int) (v reflect.Value, ok bool) {
	v = reflect.New(k.t).Elem()
	switch k.t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !x.IsInt64() || v.OverflowInt(x.Int64()) {
			return v, false
		}
		v.SetInt(x.Int64())
	default:
		if !x.IsUint64() || v.OverflowUint(x.Uint64()) {
			return v, false
		}
		v.SetUint(x.Uint64())
	}
	return v, true
}

func intKinds() []*goKind {
	var r []*goKind
	for i := range goKinds {
		if goKinds[i].kind.IsInt() || goKinds[i].kind.IsUint() {
			r = append(r, &goKinds[i])
		}
	}
	return r
}

func sufUnit(rng *rand.Rand, suf string) units.Unit {
	switch suf {
	case "b":
		return units.Byte
	case "s":
		return units.BytePerSecond
	case ",":
		return units.None
	}
	return []units.Unit{units.Second, units.Millisecond, units.Celsius, units.Unknown, "Furlongs"}[rng.Intn(5)]
}

func sufBase(suf string) int64 {
	if suf == "b" || suf == "s" {
		return 1024
	}
	return 1000
}

func someWay(rng *rand.Rand) string { return []string{"var", "var", "fn", "list"}[rng.Intn(4)] }

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func prettyRun(rng *rand.Rand, raw json.RawMessage) {
	var c prettyCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	for i := range c.Out {
		c.Out[i] = strings.Replace(c.Out[i], "~", "μ", -1)
	}
	bad := func(what string, d interface{}) { mismatch(c27, what, d, raw) }
	look := func(k *goKind, u units.Unit, v reflect.Value, want []string) {
		way := someWay(rng)
		got, err := htmlShown(prettyMetric(k, u, way), v)
		count("shown", 1)
		if err != nil {
			bad("HTML: "+err.Error(), nil)
		} else if !in(got, want) {
			bad("HTML shows another value", map[string]interface{}{"type": k.name, "unit": u, "as": way, "value": fmt.Sprint(v.Interface()), "shown": got, "may be": want})
		}
	}
	switch c.K {
	case "int":
		x := new(big.Int)
		for _, d := range c.L {
			x.Add(x.Mul(x, big.NewInt(c.R)), big.NewInt(d))
		}
		neg := new(big.Int).Neg(x)
		ks := intKinds()
		rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
		n := 0
		minus := func(l []string) []string {
			r := []string{}
			for _, s := range l {
				if x.Sign() != 0 {
					s = "-" + s
				}
				r = append(r, s)
			}
			return r
		}
		for _, k := range ks {
			if v, ok := intOf(k, x); ok {
				n++
				look(k, sufUnit(rng, c.Suf), v, c.Out)
				if c.Commas != "" {
					look(k, units.None, v, []string{c.Commas})
				}
			}
			if v, ok := intOf(k, neg); ok {
				n++
				look(k, sufUnit(rng, c.Suf), v, minus(c.Out))
				if c.Commas != "" {
					look(k, units.None, v, minus([]string{c.Commas}))
				}
			}
			if n >= 4 {
				break
			}
		}
	case "dur":
		d := time.Duration(c.L[0])*24*time.Hour + time.Duration(c.L[1])*time.Hour + time.Duration(c.L[2])*time.Minute + time.Duration(c.L[3])*time.Second + time.Duration(c.L[4])
		if g := duration.New(d).PrettyFormat(); !in(g, c.Out) {
			bad("PrettyFormat", map[string]interface{}{"duration": d, "got": g, "want": c.Out})
		}
		look(kindNamed("duration"), sufUnit(rng, []string{",", "n", "b"}[rng.Intn(3)]), reflect.ValueOf(d), c.Out)
		if d > 0 {
			if p := catch(func() { duration.New(-d).PrettyFormat() }); p == nil {
				bad("PrettyFormat of a negative duration does not panic", d)
			}
			// negative ones as in text
			pv := prettyMetric(kindNamed("duration"), units.Second, "var")
			g, err := htmlShown(pv, reflect.ValueOf(-d))
			_, txt, err2 := shown(pv.path, false)
			if err != nil || err2 != nil || g != txt[0] {
				bad("a negative duration", fmt.Sprint(g, err, txt, err2))
			}
		}
	case "time":
		t := someZone(rng, time.Unix(c.L[0]*86400+c.L[1], c.L[2]))
		look(kindNamed("time"), sufUnit(rng, []string{",", "n", "b"}[rng.Intn(3)]), reflect.ValueOf(t), c.Out)
	default:
		fatal(c.K)
	}
}

func init() {
	commands["pretty"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("pretty", *fShard))
		cases(func(i int, raw json.RawMessage) { prettyRun(rng, raw) })
	}
	commands["pretty-rand"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("prettyrand", *fShard))
		tw := newTrace()
		ks := intKinds()
		for n := 0; n < *fN; n++ {
			var ev []rec
			for j := 0; j < 50; j++ {
				var e rec
				var k *goKind
				var v reflect.Value
				u := units.None
				switch rng.Intn(6) {
				case 0:
					d := time.Duration(rng.Uint64() >> uint(1+rng.Intn(63)))
					k, v = kindNamed("duration"), reflect.ValueOf(d)
					s := int64(d / time.Second)
					e = rec{"k": "dur", "l": []int64{s / 86400, s / 3600 % 24, s / 60 % 60, s % 60, int64(d % time.Second)}}
				case 1:
					day, sec, ns := rng.Int63n(2932896+719162)-719162, rng.Int63n(86400), rng.Int63n(1000000000)
					if rng.Intn(2) == 0 {
						ns = ns / 1000000 * 1000000
					}
					k, v = kindNamed("time"), reflect.ValueOf(someZone(rng, time.Unix(day*86400+sec, ns)))
					e = rec{"k": "time", "l": []int64{day, sec, ns}}
				default:
					suf := []string{"n", "b", "s", ","}[rng.Intn(4)]
					u = sufUnit(rng, suf)
					x := new(big.Int).SetUint64(rng.Uint64() >> uint(rng.Intn(64)))
					switch rng.Intn(3) {
					case 0:
						// near a power of the base, or a number of few digits
						x = new(big.Int).Exp(big.NewInt(sufBase(suf)), big.NewInt(int64(rng.Intn(7))), nil)
						x.Mul(x, big.NewInt(1+rng.Int63n(1000)))
						if rng.Intn(2) == 0 {
							x.Quo(x, big.NewInt([]int64{1, 2, 10, 100, 1000}[rng.Intn(5)]))
						}
						x.Add(x, big.NewInt(rng.Int63n(3)-1))
					}
					if rng.Intn(2) == 0 {
						x.Neg(x)
					}
					ok := false
					for i := 0; i < 20 && !ok; i++ {
						k = ks[rng.Intn(len(ks))]
						v, ok = intOf(k, x)
					}
					if !ok {
						continue
					}
					e = rec{"k": "int", "neg": x.Sign() < 0, "l": limbs(x, sufBase(suf)), "R": sufBase(suf), "suf": suf}
				}
				way := someWay(rng)
				got, err := htmlShown(prettyMetric(k, u, way), v)
				if err != nil {
					mismatch(c27, "HTML: "+err.Error(), nil, nil)
					continue
				}
				e["s"] = strings.Replace(got, "μ", "~", -1)
				e["type"], e["as"] = k.name, way
				ev = append(ev, e)
				count("shown", 1)
			}
			tw.put(rec{"ev": ev})
			count("histories", 1)
		}
		tw.close()
	}
}
