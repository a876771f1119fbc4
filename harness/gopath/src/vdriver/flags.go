package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c23 = []string{"C23"}

// plainFlag has no getter.
type plainFlag struct{ s string }

func (f *plainFlag) String() string { return f.s }
func (f *plainFlag) Set(s string) error {
	if s == "bad" {
		return errors.New("bad")
	}
	f.s = s
	return nil
}

// getFlag has one that gives any type.
type getFlag struct {
	s   string
	get func(s string) interface{}
}

func (f *getFlag) String() string     { return "<" + f.s + ">" }
func (f *getFlag) Set(s string) error { f.s = s; return nil }
func (f *getFlag) Get() interface{}   { return f.get(f.s) }

// onOff is a switch that writes itself in its own way.
type onOff struct{ on bool }

func (f *onOff) String() string {
	if f.on {
		return "on"
	}
	return "off"
}
func (f *onOff) Set(s string) error { f.on = s == "true" || s == "on"; return nil }
func (f *onOff) Get() interface{}   { return f.on }
func (f *onOff) IsBoolFlag() bool   { return true }

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal(err)
	}
	return n
}

// flagSort is a sort of flag of Flags.tla: how to define one with a value,
// values to set, and what is to be reported for each.
type flagSort struct {
	api    string // as in goKinds
	define func(n, usage, v string)
	vals   []string
	want   func(v string) interface{}
}

func getter(api string, vals []string, get func(s string) interface{}, want func(s string) interface{}) flagSort {
	if want == nil {
		want = get
	}
	return flagSort{api, func(n, u, v string) { flag.Var(&getFlag{v, get}, n, u) }, vals, want}
}

var (
	intStrs = []string{"0", "1", "-1", "42", "-77"}
	i64Strs = append([]string{"9223372036854775807", "-9223372036854775808", "1000000007"}, intStrs...)
	u64Strs = []string{"0", "1", "18446744073709551615", "9223372036854775808", "512"}
	durStrs = []string{"0s", "1ns", "1h2m3.5s", "-1.5ms", "2562047h47m16.854775807s", "-1h0m0.000000001s", "250ms"}
	txtStrs = []string{"", "a b", "<x>&", "日本", "x|y", "1", "-", "true"}
	timStrs = []string{"2016-07-13T20:35:00.000000001Z", "1970-01-01T00:00:00Z", "2262-04-11T23:47:16.854775807Z", "1969-12-31T23:59:59.5Z"}
)

func asIs(s string) interface{}   { return s }
func angled(s string) interface{} { return "<" + s + ">" }
func empty(s string) interface{}  { return "" }
func aTime(s string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		fatal(err)
	}
	return t
}
func aDur(s string) time.Duration {
	d, err := time.ParseDuration(s)
	if err != nil {
		fatal(err)
	}
	return d
}
func aUint(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		fatal(err)
	}
	return n
}
func aFloat(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		fatal(err)
	}
	return f
}

var flagSorts = map[string]flagSort{
	"bool":       {"bool", func(n, u, v string) { flag.Bool(n, v == "true", u) }, []string{"false", "true"}, func(s string) interface{} { return s == "true" }},
	"int":        {"int64", func(n, u, v string) { flag.Int(n, int(atoi(v)), u) }, i64Strs, func(s string) interface{} { return atoi(s) }},
	"int64":      {"int64", func(n, u, v string) { flag.Int64(n, atoi(v), u) }, i64Strs, func(s string) interface{} { return atoi(s) }},
	"uint":       {"uint64", func(n, u, v string) { flag.Uint(n, uint(aUint(v)), u) }, u64Strs, func(s string) interface{} { return aUint(s) }},
	"uint64":     {"uint64", func(n, u, v string) { flag.Uint64(n, aUint(v), u) }, u64Strs, func(s string) interface{} { return aUint(s) }},
	"string":     {"string", func(n, u, v string) { flag.String(n, v, u) }, txtStrs, asIs},
	"float64":    {"float64", func(n, u, v string) { flag.Float64(n, aFloat(v), u) }, []string{"0", "0.25", "-1e300", "1e-7", "3"}, func(s string) interface{} { return aFloat(s) }},
	"duration":   {"duration", func(n, u, v string) { flag.Duration(n, aDur(v), u) }, durStrs, func(s string) interface{} { return aDur(s) }},
	"func":       {"string", func(n, u, v string) { flag.Func(n, u, func(string) error { return nil }) }, txtStrs, empty},
	"boolfunc":   {"string", func(n, u, v string) { flag.BoolFunc(n, u, func(string) error { return nil }) }, []string{"true", "false"}, empty},
	"textip":     {"string", func(n, u, v string) { flag.TextVar(new(net.IP), n, net.ParseIP(v), u) }, []string{"1.2.3.4", "::1", "255.255.255.255"}, asIs},
	"texttime":   {"time", func(n, u, v string) { flag.TextVar(new(time.Time), n, aTime(v), u) }, timStrs, func(s string) interface{} { return aTime(s) }},
	"nogetter":   {"string", func(n, u, v string) { flag.Var(&plainFlag{v}, n, u) }, txtStrs, asIs},
	"getonoff":   {"bool", func(n, u, v string) { flag.Var(&onOff{v == "on"}, n, u) }, []string{"on", "off"}, func(s string) interface{} { return s == "on" }},
	"getuint8":   getter("uint8", []string{"0", "1", "255"}, func(s string) interface{} { return uint8(atoi(s)) }, nil),
	"getint16":   getter("int16", []string{"0", "-32768", "32767"}, func(s string) interface{} { return int16(atoi(s)) }, nil),
	"getuint32":  getter("uint32", []string{"0", "4294967295", "7"}, func(s string) interface{} { return uint32(atoi(s)) }, nil),
	"getuint64":  getter("uint64", u64Strs, func(s string) interface{} { return aUint(s) }, nil),
	"getfloat64": getter("float64", []string{"0", "0.1", "-2.5e300"}, func(s string) interface{} { return aFloat(s) }, nil),
	"getstring":  getter("string", txtStrs, asIs, nil),
	"getint8":    getter("int8", intStrs, func(s string) interface{} { return int8(atoi(s)) }, nil),
	"getuint16":  getter("uint16", []string{"0", "1", "65535"}, func(s string) interface{} { return uint16(atoi(s)) }, nil),
	"getint32":   getter("int32", intStrs, func(s string) interface{} { return int32(atoi(s)) }, nil),
	"getfloat32": getter("float32", []string{"0", "0.1", "-2.5"}, func(s string) interface{} { return float32(aFloat(s)) }, nil),
	"gettime":    getter("time", timStrs, func(s string) interface{} { return aTime(s) }, nil),
	"gettimeptr": getter("time", append([]string{""}, timStrs...), func(s string) interface{} {
		if s == "" {
			return (*time.Time)(nil)
		}
		t := aTime(s)
		return &t
	}, func(s string) interface{} {
		if s == "" {
			return time.Time{}
		}
		return aTime(s)
	}),
	"getduration":     getter("duration", durStrs, func(s string) interface{} { return aDur(s) }, nil),
	"getuserint":      getter("int64", i64Strs, func(s string) interface{} { return myInt(atoi(s)) }, func(s string) interface{} { return atoi(s) }),
	"getuserstring":   getter("string", txtStrs, func(s string) interface{} { return myString(s) }, asIs),
	"getuserduration": getter("int64", i64Strs, func(s string) interface{} { return myDur(atoi(s)) }, func(s string) interface{} { return atoi(s) }),
	"getnil":          getter("string", txtStrs, func(s string) interface{} { return nil }, angled),
	"getslice":        getter("string", txtStrs, func(s string) interface{} { return []string{s} }, angled),
	"getstruct":       getter("string", txtStrs, func(s string) interface{} { return struct{ S string }{s} }, angled),
	"getptr":          getter("string", txtStrs, func(s string) interface{} { return &s }, angled),
	"getfunc":         getter("string", txtStrs, func(s string) interface{} { return func() int { return 1 } }, angled),
}

const flagDir = "/proc/flags"

type aFlag struct {
	name, sort, val string
	usage           string
	setUnit         units.Unit
	regUnit         units.Unit // "" while not registered
}

func (f *aFlag) reg() *mreg {
	s := flagSorts[f.sort]
	return &mreg{o: &mobj{w: "func", k: kindNamed(s.api), cur: []interface{}{s.want(f.val)}}, path: flagDir + "/" + f.name, unit: f.regUnit, desc: f.usage}
}

func (f *aFlag) canon() string { return canon(flagSorts[f.sort].want(f.val)) }

func newFlagSet() {
	flag.CommandLine = flag.NewFlagSet("app", flag.ContinueOnError)
	tricorder.UnregisterPath(flagDir)
}

// ---- replay of FlagsMC ----

type flagSUT struct {
	g     *Graph
	infos []map[string]flagShown
	rng   *rand.Rand
	n     int
	fl    map[string]*aFlag
}

type flagShown struct{ K, V, U, D string }

func (s *flagSUT) Reset(init int, rng *rand.Rand) bool {
	newFlagSet()
	s.rng = rng
	s.n++
	s.fl = map[string]*aFlag{}
	for i, n := range []string{"a", "b"} {
		pat := []string{"%s%d", "%s-%d", "%s.x_%d", "dir/%s%d", "%s %d", "test.%s%d", "_%s%d", "X.%s%d", "log_%s%d", "%s.%d.help"}[(s.n+i)%10]
		s.fl[n] = &aFlag{name: fmt.Sprintf(pat, n, *fShard*1000000+s.n), usage: []string{"usage of " + n, "", "with <html> & \"quotes\"", "the `name` of " + n, mDescs[rng.Intn(len(mDescs))]}[rng.Intn(5)]}
	}
	return true
}

// value number i: two different ones of the sort
func (s *flagSUT) value(f *aFlag, v string) string {
	vs := flagSorts[f.sort].vals
	h := len(f.name)*7 + s.n*3
	i := h % len(vs)
	if v == "1" {
		i = (i + 1 + h%(len(vs)-1)) % len(vs)
	}
	return vs[i]
}

func (s *flagSUT) Step(act json.RawMessage, target int, replay func() interface{}) bool {
	var a struct{ Op, N, T, V, U string }
	if err := json.Unmarshal(act, &a); err != nil {
		fatal(err)
	}
	if s.infos[target] == nil {
		var x struct{ Shown json.RawMessage }
		if err := json.Unmarshal(s.g.Info[target], &x); err != nil {
			fatal(err)
		}
		m := map[string]flagShown{}
		if string(x.Shown) != "[]" { // TLA+'s empty function
			if err := json.Unmarshal(x.Shown, &m); err != nil {
				fatal(err)
			}
		}
		s.infos[target] = m
	}
	shown := s.infos[target]
	guard(c23, "flags", replay)
	defer unguard()
	bad := func(what string, d interface{}) bool {
		mismatch(c23, what, rec{"detail": d, "flags": fmt.Sprintf("%+v %+v", s.fl["a"], s.fl["b"])}, replay())
		return false
	}
	f := s.fl[a.N]
	if p := catch(func() {
		switch a.Op {
		case "define":
			f.sort = a.T
			f.val = s.value(f, a.V)
			flagSorts[f.sort].define(f.name, f.usage, f.val)
		case "set":
			f.val = s.value(f, a.V)
			if err := flag.Set(f.name, f.val); err != nil {
				fatal("flag.Set:", f.sort, f.val, err)
			}
		case "unit":
			tricorder.SetFlagUnit(f.name, units.Unit(a.U))
		case "register":
			tricorder.RegisterFlags()
		}
	}); p != nil {
		return bad(a.Op+" panics", fmt.Sprint(p))
	}
	known := map[string]*mreg{}
	for n, x := range shown {
		s.fl[n].regUnit = units.Unit(x.U)
		m := s.fl[n].reg()
		known[m.path] = m
	}
	for _, iface := range []string{"read", "rpc-list", "json-list", "text"} {
		var l []*metObs
		var err error
		if p := catch(func() { l, err = listMetrics(flagDir, iface, known) }); p != nil {
			return bad("listing by "+iface+" panics", fmt.Sprint(p))
		}
		if err != nil {
			return bad("listing by "+iface+" is unreadable", err.Error())
		}
		if len(l) != len(shown) {
			return bad(fmt.Sprintf("%d flags in %s, not %d", len(l), iface, len(shown)), nil)
		}
		got := map[string]*metObs{}
		for _, o := range l {
			got[o.Path] = o
		}
		for n, x := range shown {
			f := s.fl[n]
			o := got[flagDir+"/"+f.name]
			if o == nil {
				return bad("flag not in "+iface, f.name)
			}
			if w := foldZeros([]string{f.canon()}, kindNamed(flagSorts[f.sort].api).kind); o.Vals[0] != f.canon() && (o.exact || o.Vals[0] != w[0]) {
				return bad("value by "+iface, rec{"flag": f.name, "got": o.Vals, "want": f.canon()})
			}
			if o.meta && (string(o.Kind) != x.K || o.Unit != x.U || o.Desc != f.usage) {
				return bad("description by "+iface, rec{"flag": f.name, "got": fmt.Sprintf("%q %q %q", o.Kind, o.Unit, o.Desc), "want": x})
			}
		}
	}
	return true
}

// ---- recorded histories ----

var flagNames = []string{"v", "verbose", "log.level", "x-y", "a/b", "a/c", "with space", "日本", "UPPER", "n0", "n1", "n2", "n3", "n4", "<b>", "q\"t", "+", "_", "0", "long" + strings.Repeat("g", 100), "p%41", "proc", "z", "test.v", "test.run", "test.", "httptest.serve", "help", "h", "version", "alsologtostderr", "vmodule", "debug", ".hidden", "flags", "go", "args", "V", "Verbose", "upper", "N0", "Debug", "v ", "log_level", "日"}

func flagHistory(rng *rand.Rand) rec {
	newFlagSet()
	suf := fmt.Sprintf("%x", rng.Uint32()) // units are never forgotten
	names := []string{}
	fl := map[string]*aFlag{}
	for _, i := range rng.Perm(len(flagNames))[:1+rng.Intn(len(flagNames)-1)] {
		n := flagNames[i] + suf
		names = append(names, n)
	}
	sorts := []string{}
	for k := range flagSorts {
		sorts = append(sorts, k)
	}
	sort.Strings(sorts)
	ev := []rec{}
	// the zero time and the epoch are the same in JSON and text
	fold := func(v string, k types.Type) string { return foldZeros([]string{v}, k)[0] }
	def := func(f *aFlag) {
		f.sort = sorts[rng.Intn(len(sorts))]
		f.val = flagSorts[f.sort].vals[rng.Intn(len(flagSorts[f.sort].vals))]
		f.usage = mDescs[rng.Intn(len(mDescs))]
		flagSorts[f.sort].define(f.name, f.usage, f.val)
		ev = append(ev, rec{"op": "def", "n": f.name, "t": f.sort, "v": fold(f.canon(), kindNamed(flagSorts[f.sort].api).kind), "d": f.usage})
	}
	entry := func(o *metObs) rec {
		return rec{"n": strings.TrimPrefix(o.Path, flagDir+"/"), "k": string(o.Kind), "v": fold(strings.Join(o.Vals, "|"), o.Kind), "u": o.Unit, "d": o.Desc, "m": o.meta}
	}
	registered := func() map[string]*mreg {
		m := map[string]*mreg{}
		for _, f := range fl {
			if f.regUnit != "" {
				x := f.reg()
				m[x.path] = x
			}
		}
		return m
	}
	set := func(f *aFlag) {
		v := flagSorts[f.sort].vals[rng.Intn(len(flagSorts[f.sort].vals))]
		var err error
		if rng.Intn(2) == 0 {
			err = flag.Set(f.name, v)
		} else if rng.Intn(2) == 0 {
			err = flag.CommandLine.Parse([]string{"-" + f.name + "=" + v})
		} else {
			err = flag.Lookup(f.name).Value.Set(v)
		}
		if err != nil {
			fatal("setting flag", f.sort, v, err)
		}
		f.val = v
		ev = append(ev, rec{"op": "set", "n": f.name, "v": fold(f.canon(), kindNamed(flagSorts[f.sort].api).kind)})
	}
	if rng.Intn(25) == 0 {
		// very many flags
		for i := 0; i < 150; i++ {
			n := fmt.Sprintf("m%d%s", i, suf)
			names = append(names, n)
			fl[n] = &aFlag{name: n}
			if i < 130 {
				def(fl[n])
				if i%8 < 5 {
					set(fl[n])
				}
			}
		}
	}
	for steps := 10 + rng.Intn(50); steps > 0; steps-- {
		n := names[rng.Intn(len(names))]
		f := fl[n]
		if f == nil {
			f = &aFlag{name: n}
			fl[n] = f
		}
		switch x := rng.Intn(20); {
		case x < 6:
			if f.sort == "" {
				def(f)
			}
		case x < 9 && f.sort != "":
			set(f)
		case x < 11:
			u := []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, "furlongs"}[rng.Intn(5)]
			tricorder.SetFlagUnit(f.name, u)
			f.setUnit = u
			ev = append(ev, rec{"op": "unit", "n": f.name, "u": string(u)})
		case x == 19 && rng.Intn(3) == 0:
			ns := []string{f.name}
			if rng.Intn(3) == 0 {
				ns = names
				tricorder.UnregisterPath(flagDir)
			} else {
				tricorder.UnregisterPath(flagDir + "/" + f.name)
			}
			for _, n := range ns {
				if fl[n] != nil {
					fl[n].regUnit = ""
				}
			}
			ev = append(ev, rec{"op": "unreg", "ns": ns})
		case x < 13:
			tricorder.RegisterFlags()
			// the unit is needed to read times and durations
			for _, f := range fl {
				if f.sort == "" || f.regUnit != "" {
					continue
				}
				f.regUnit = f.setUnit
				if f.setUnit == "" {
					f.regUnit = units.None
					if flagSorts[f.sort].api == "duration" {
						f.regUnit = units.Second
					}
				}
			}
			ev = append(ev, rec{"op": "register"})
		case x < 17:
			i := []string{"read", "rpc-list", "json-list", "text"}[rng.Intn(4)]
			l, err := listMetrics(flagDir, i, registered())
			e := rec{"op": "all", "i": i, "err": "", "es": []rec{}}
			if err != nil {
				e["err"] = err.Error()
			} else {
				es := []rec{}
				for _, o := range l {
					es = append(es, entry(o))
				}
				e["es"] = es
			}
			ev = append(ev, e)
		default:
			i := []string{"read", "rpc-get", "json-get", "text"}[rng.Intn(4)]
			p := flagDir + "/" + f.name
			o, err := getMetric(p, i, registered()[p])
			e := rec{"op": "one", "n": f.name, "i": i, "err": "", "e": rec{}}
			switch {
			case err == errMissing:
				e["err"] = "missing"
			case err != nil:
				e["err"] = err.Error()
			default:
				o.Path = p
				e["e"] = entry(o)
			}
			ev = append(ev, e)
		}
	}
	return rec{"names": names, "ev": ev}
}

func init() {
	commands["flags-mbt"] = func() {
		g := loadGraph(*fGraph)
		s := &flagSUT{g: g, infos: make([]map[string]flagShown, len(g.States))}
		tour(g, s, newRand(*fSeed+int64(*fShard)*7907, "flags"), *fShard, *fShards, *fExtra, *fMaxLen, *fBudget)
	}
	commands["flags-trace"] = func() {
		tr := newTrace()
		defer tr.close()
		for i := 0; i < *fN; i++ {
			rng := newRand((*fSeed*1000003+int64(i))*64+int64(*fShard), "flags")
			guard(c23, "flags", nil)
			var e rec
			if p := catch(func() { e = flagHistory(rng) }); p != nil {
				mismatch(c23, "panic", fmt.Sprint(p), rec{"seed": *fSeed, "history": i, "shard": *fShard})
				continue
			}
			unguard()
			tr.put(e)
			count("histories", 1)
			count("events", len(e["ev"].([]rec)))
		}
	}
}
