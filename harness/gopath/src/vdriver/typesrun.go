package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
)

var c26 = []string{"C26"}

type typeCase struct {
	K, T                      string
	Zero, Slice, Mzero        string
	Bits                      int
	Int, Uint, Float, Can, Eq bool
	Sub                       bool
	Kind, Subkind             string
	V, R                      int64
}

// values by name of Go type; several where nil or empty may matter.
var goVals = map[string][]interface{}{
	"nil": {nil}, "int": {5, 0}, "uint": {uint(5)}, "[]int": {[]int{1}, []int(nil)}, "[]uint": {[]uint{1}}, "complex128": {complex(1, 2)},
	"struct{}": {struct{}{}}, "*int64": {new(int64), (*int64)(nil)}, "[]interface {}": {[]interface{}{1}}, "map[string]int": {map[string]int{}},
	"error": {errors.New("x")}, "uintptr": {uintptr(1)}, "[]*time.Time": {[]*time.Time{nil}}, "[2]int64": {[2]int64{}},
	"user int64": {myInt64(1)}, "user duration": {myDur(1)}, "[]user int64": {[]myInt64{1}},
	"messages.Distribution": {messages.Distribution{}}, "messages.Metric": {messages.Metric{}},
	"*messages.Distribution": {(*messages.Distribution)(nil), &messages.Distribution{}},
}

func init() {
	for _, k := range goKinds[:16] {
		n := k.t.String()
		if k.t == k.api {
			goVals[n] = append(goVals[n], k.vals...)
		}
		st := reflect.SliceOf(k.t)
		goVals["[]"+n] = append(goVals["[]"+n], reflect.Zero(st).Interface(), reflect.MakeSlice(st, 0, 3).Interface(), reflect.MakeSlice(st, 2, 2).Interface())
	}
}

func typeRun(rng *rand.Rand, raw json.RawMessage) {
	var c typeCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	bad := func(what string, d interface{}) { mismatch(c26, what+" of "+c.T, d, raw) }
	t := types.Type(c.T)
	switch c.K {
	case "attr":
		name := func(v interface{}) string {
			if v == nil {
				return ""
			}
			return reflect.TypeOf(v).String()
		}
		gets := func(what, want string, f func() (interface{}, error), must func() interface{}) {
			v, err := f()
			if name(v) != want || (err == nil) != (want != "") {
				bad(what, fmt.Sprintf("%T %v %v, specification says %q", v, v, err, want))
				return
			}
			if want != "" && what != "NilSlice" && want != "string" && !reflect.ValueOf(v).IsZero() {
				bad(what+" is not zero", fmt.Sprint(v))
			}
			if want != "" && what == "NilSlice" && !reflect.ValueOf(v).IsNil() {
				bad(what+" is not nil", fmt.Sprint(v))
			}
			if want == "string" && (t == types.Time || t == types.Duration) && v != "0.000000000" {
				bad(what, v)
			}
			if want == "string" && t == types.String && v != "" {
				bad(what, v)
			}
			if must != nil {
				var m interface{}
				p := catch(func() { m = must() })
				if (p == nil) != (want != "") || name(m) != want || want != "" && !reflect.DeepEqual(m, v) {
					bad(what+" (panicking)", fmt.Sprintf("%v %T %v", p, m, m))
				}
			}
		}
		gets("ZeroValue", c.Zero, t.SafeZeroValue, t.ZeroValue)
		gets("NilSlice", c.Slice, t.SafeNilSlice, t.NilSlice)
		gets("messages.ZeroValue", c.Mzero, func() (interface{}, error) { return messages.ZeroValue(t) }, nil)
		if t.Bits() != c.Bits {
			bad("Bits", t.Bits())
		}
		for _, x := range []struct {
			n    string
			g, w bool
		}{{"IsInt", t.IsInt(), c.Int}, {"IsUint", t.IsUint(), c.Uint}, {"IsFloat", t.IsFloat(), c.Float}, {"CanToFromFloat", t.CanToFromFloat(), c.Can}, {"UsesSubType", t.UsesSubType(), c.Sub}, {"SupportsEquality", t.SupportsEquality(), c.Eq}} {
			if x.g != x.w {
				bad(x.n, x.g)
			}
		}
		if !c.Can {
			for _, f := range []float64{0, 1, -1.5} {
				if catch(func() { t.FromFloat(f) }) == nil {
					bad("FromFloat does not panic", f)
				}
			}
			for _, v := range []interface{}{nil, int64(1), "x", 1.5, true} {
				if catch(func() { t.ToFloat(v) }) == nil {
					bad("ToFloat does not panic", v)
				}
			}
		} else {
			v, _ := t.SafeZeroValue()
			if t == types.GoTime {
				v = time.Unix(0, 0)
			}
			if p := catch(func() {
				if f := t.ToFloat(v); f != 0 {
					bad("ToFloat of zero", f)
				}
				if b := t.FromFloat(0); canon(b) != canon(v) || fmt.Sprintf("%T", b) != fmt.Sprintf("%T", v) {
					bad("FromFloat of zero", b)
				}
			}); p != nil {
				bad("conversion panicked", p)
			}
		}
	case "go":
		vs := goVals[c.T]
		if vs == nil {
			fatal("no values of", c.T)
		}
		for _, v := range vs {
			k, s := types.FromGoValueWithSubType(v)
			if string(k) != c.Kind || string(s) != c.Subkind {
				bad("kind", fmt.Sprintf("%T %v: %q %q", v, v, k, s))
			}
			if g := types.FromGoValue(v); string(g) != c.Kind {
				bad("kind", fmt.Sprintf("%T %v: %q", v, v, g))
			}
		}
		if d, ok := vs[0].(*messages.Distribution); ok && string(d.Type()) != c.Kind {
			bad("Type()", d.Type())
		}
	case "round":
		f := float64(c.V) / 8
		v := t.FromFloat(f)
		if fmt.Sprint(v) != fmt.Sprint(c.R) || fmt.Sprintf("%T", v) != c.T {
			bad("FromFloat", fmt.Sprintf("%v gives %T %v, specification says %d", f, v, v, c.R))
		}
	case "dur":
		f := float64(c.V) / 1024
		if d := duration.FromFloat(f); int64(d) != c.R {
			bad("duration.FromFloat", fmt.Sprint(f, " gives ", int64(d)))
		}
		if d := t.FromFloat(f); d != time.Duration(c.R) {
			bad("FromFloat", fmt.Sprint(f, " gives ", d))
		}
	default:
		fatal(c.K)
	}
}

func randInt(rng *rand.Rand) uint64 {
	x := rng.Uint64() >> uint(rng.Intn(64))
	switch rng.Intn(4) {
	case 0:
		// few significant bits
		x = x >> uint(rng.Intn(12)) << uint(rng.Intn(12))
	case 1:
		x = 1<<uint(rng.Intn(64)) + uint64(rng.Intn(5)) - 2
	}
	return x
}

func init() {
	commands["types"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("types", *fShard))
		cases(func(i int, raw json.RawMessage) { typeRun(rng, raw) })
	}
	commands["types-rand"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("typesrand", *fShard))
		tw := newTrace()
		dec := func(f float64) string {
			b, _ := new(big.Float).SetFloat64(f).Int(nil)
			return b.String()
		}
		for n := 0; n < *fN; n++ {
			var ev []rec
			for j := 0; j < 60; j++ {
				var e rec
				if p := catch(func() {
					switch rng.Intn(6) {
					case 0, 1:
						k := &goKinds[2+rng.Intn(9)]
						if k.name == "uint" {
							k = kindNamed("uint64")
						}
						t := k.kind
						v := reflect.New(k.t).Elem()
						x := randInt(rng)
						if t.IsInt() {
							v.SetInt(int64(x) >> uint(64-t.Bits()))
							if rng.Intn(2) == 0 {
								v.SetInt(int64(x)) // truncated
							}
						} else {
							v.SetUint(x)
						}
						f := t.ToFloat(v.Interface())
						s := fmt.Sprint(v.Interface())
						bi, _ := new(big.Int).SetString(s, 10)
						_, acc := new(big.Float).SetInt(bi).Float64()
						e = rec{"k": "int", "t": string(t), "x": s, "exact": acc == big.Exact, "f": dec(f), "back": ""}
						if acc == big.Exact {
							b := t.FromFloat(f)
							e["back"] = fmt.Sprint(b)
							if reflect.TypeOf(b) != k.t {
								e["back"] = fmt.Sprintf("%T", b)
							}
						}
					case 2:
						if rng.Intn(2) == 0 {
							x := math.Float64frombits(rng.Uint64())
							y := types.Float64.FromFloat(types.Float64.ToFloat(x)).(float64)
							e = rec{"k": "float", "t": "float64", "same": math.Float64bits(x) == math.Float64bits(y) || x != x && y != y}
						} else {
							x := math.Float32frombits(rng.Uint32())
							y := types.Float32.FromFloat(types.Float32.ToFloat(x)).(float32)
							e = rec{"k": "float", "t": "float32", "same": math.Float32bits(x) == math.Float32bits(y) || x != x && y != y}
						}
					case 3:
						// a large base, so that the sum is exact
						k := &goKinds[[]int{4, 5, 9, 10}[rng.Intn(4)]]
						t := k.kind
						base := int64(1) << uint(rng.Intn(t.Bits()-3))
						if base > 1<<49 {
							base = 1 << 49
						}
						v := int64(rng.Intn(17))
						if t.IsInt() && rng.Intn(2) == 0 {
							base, v = -base, -v
						}
						b := t.FromFloat(float64(base) + float64(v)/8)
						bi, ok := new(big.Int).SetString(fmt.Sprint(b), 10)
						r := int64(-99999)
						if ok && bi.Sub(bi, big.NewInt(base)).IsInt64() && bi.CmpAbs(big.NewInt(10000)) < 0 {
							r = bi.Int64()
						}
						e = rec{"k": "round", "t": string(t), "base": fmt.Sprint(base), "v": v, "r": r}
					case 4:
						d := time.Duration(randInt(rng))
						exact := d < 1<<50 && d > -1<<50
						if rng.Intn(2) == 0 {
							d = time.Duration(int64(randInt(rng))>>11/1953125) * 1953125
							exact = true
						}
						f := types.GoDuration.ToFloat(d)
						b, ok := types.GoDuration.FromFloat(f).(time.Duration)
						e = rec{"k": "dur", "exact": exact, "same": ok && b == d && f == duration.ToFloat(d) && b == duration.FromFloat(f), "d": fmt.Sprint(int64(d)), "f": fmt.Sprint(f)}
						// the float is the number of seconds
						if w, _ := new(big.Rat).SetFrac64(int64(d), 1000000000).Float64(); math.Abs(f-w) > 1e-15*math.Abs(w) {
							e["same"], e["exact"] = false, true
						}
					default:
						t := time.Unix(rng.Int63n(1<<33+1<<32)-1<<32, rng.Int63n(1000000000))
						if rng.Intn(3) == 0 {
							t = time.Unix(rng.Int63n(7)-3, rng.Int63n(1000000000))
						}
						t = someZone(rng, t)
						f := types.GoTime.ToFloat(t)
						b, ok := types.GoTime.FromFloat(f).(time.Time)
						ns := b.Sub(t)
						if !ok || ns > 1e9 || f != duration.TimeToFloat(t) || !duration.FloatToTime(f).Equal(b) {
							ns = 999999999
						}
						if ns < -1e9 {
							ns = -999999999
						}
						if math.Abs(f-(float64(t.Unix())+float64(t.Nanosecond())/1e9)) > 2e-6 {
							ns = 888888888
						}
						e = rec{"k": "time", "ns": int64(ns), "t": fmt.Sprint(t.UTC()), "f": fmt.Sprint(f)}
					}
				}); p != nil {
					mismatch(c26, fmt.Sprint("a conversion panicked: ", p), nil, nil)
					continue
				}
				ev = append(ev, e)
				count("conversions", 1)
			}
			tw.put(rec{"ev": ev})
			count("histories", 1)
		}
		tw.close()
	}
}
