package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// timeCase is a case of TimeConv: a number of nanoseconds and how it is
// written in unit U.
type timeCase struct {
	K, U, S string
	X       struct {
		Neg bool
		Ns  string
	}
}

func (c *timeCase) duration() time.Duration {
	s := c.X.Ns
	if c.X.Neg {
		s = "-" + s
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal(err)
	}
	return time.Duration(n)
}

func (c *timeCase) time() time.Time {
	n, ok := new(big.Int).SetString(c.X.Ns, 10)
	if !ok {
		fatal(c.X.Ns)
	}
	if c.X.Neg {
		n.Neg(n)
	}
	q, r := new(big.Int).DivMod(n, big.NewInt(1000000000), new(big.Int))
	return time.Unix(q.Int64(), r.Int64())
}

// ---- conversions (C13) ----

var c13 = []string{"C13"}

func someZone(rng *rand.Rand, t time.Time) time.Time {
	switch rng.Intn(4) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("east", 3600*5+1800))
	case 2:
		return t.In(time.FixedZone("west", -3600*11))
	}
	return t
}

func sameVal(a, b interface{}) bool {
	ta, ok := a.(time.Time)
	tb, ok2 := b.(time.Time)
	if ok && ok2 {
		return ta.Equal(tb)
	}
	la, ok := a.([]time.Time)
	lb, ok2 := b.([]time.Time)
	if ok && ok2 {
		if len(la) != len(lb) {
			return false
		}
		for i := range la {
			if !la[i].Equal(lb[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// sameMetric compares everything; times are the same if they are the same instant.
func sameMetric(a, b *messages.Metric) bool {
	x, y := *a, *b
	x.Value, y.Value, x.TimeStamp, y.TimeStamp = nil, nil, nil, nil
	return x == y && sameVal(a.Value, b.Value) && sameVal(a.TimeStamp, b.TimeStamp)
}

// conv converts m to JSON form and back, checking each step against what is
// expected.
func conv(m messages.Metric, wantVal interface{}, wantKind, wantSub types.Type, wantTS interface{}, bad func(string, interface{})) {
	orig := m
	det := func(x messages.Metric) interface{} {
		return fmt.Sprintf("metric %+v, got %+v, want value %v kind %v %v timestamp %v", orig, x, wantVal, wantKind, wantSub, wantTS)
	}
	check := func(what string) bool {
		want := orig
		want.Value, want.Kind, want.SubType, want.TimeStamp = wantVal, wantKind, wantSub, wantTS
		if !sameMetric(&m, &want) {
			bad(what, det(m))
			return false
		}
		return true
	}
	if p := catch(func() { m.ConvertToJson() }); p != nil {
		bad(fmt.Sprint("ConvertToJson panicked: ", p), det(m))
		return
	}
	if !check("ConvertToJson") {
		return
	}
	j, k, s := messages.AsJsonWithSubType(orig.Value, orig.Kind, orig.SubType, orig.Unit)
	if !sameVal(j, wantVal) || k != wantKind || s != wantSub {
		bad("AsJsonWithSubType", fmt.Sprint(j, k, s, " for ", orig))
	}
	m.ConvertToJson()
	if !check("ConvertToJson twice") {
		return
	}
	for i := 0; i < 2; i++ {
		if err := m.ConvertToGoRPC(); err != nil {
			bad("ConvertToGoRPC: "+err.Error(), det(m))
			return
		}
		if !sameMetric(&m, &orig) {
			bad("not restored", det(m))
			return
		}
	}
	count("conversions", 1)
}

type timeSlot struct {
	unit units.Unit
	dur  time.Duration
	tm   time.Time
	ptm  *time.Time
	dl   *tricorder.List
	tl   *tricorder.List
}

var timeSlots = map[string]*timeSlot{}

// slot has metrics of every kind with the unit.
func slot(u string) *timeSlot {
	if s := timeSlots[u]; s != nil {
		return s
	}
	s := &timeSlot{unit: units.Unit(u)}
	s.dl = tricorder.NewList([]time.Duration{}, true)
	s.tl = tricorder.NewList([]time.Time{}, true)
	base := fmt.Sprintf("/tc/%d", len(timeSlots))
	timeSlots[u] = s
	reg := func(n string, m interface{}) {
		if err := tricorder.RegisterMetric(base+n, m, s.unit, "time"); err != nil {
			fatal(n, err)
		}
	}
	s.base(base)
	reg("/dv", &s.dur)
	reg("/df", func() time.Duration { return s.dur })
	reg("/tv", &s.tm)
	reg("/tf", func() time.Time { return s.tm })
	reg("/tp", &s.ptm)
	reg("/tpf", func() *time.Time { return s.ptm })
	reg("/dl", s.dl)
	reg("/tl", s.tl)
	return s
}

var slotBase = map[*timeSlot]string{}

func (s *timeSlot) base(b string) { slotBase[s] = b }

// shown: how the metric appears in JSON and text.
func shown(path string, list bool) (js, txt []string, err error) {
	w := httpGetF(reqURI("/metricsapi", path, "singleton=true"), nil)
	var m struct{ Value json.RawMessage }
	if err = json.Unmarshal(w.Body.Bytes(), &m); err != nil {
		return
	}
	if list {
		err = json.Unmarshal(m.Value, &js)
	} else {
		js = []string{""}
		err = json.Unmarshal(m.Value, &js[0])
	}
	if err != nil {
		return
	}
	w = httpGetF(reqURI("/metrics", path, "format=text"), nil)
	s := strings.TrimSuffix(w.Body.String(), "\n")
	if list {
		if s != "" {
			txt = strings.Split(s, "|")
		}
	} else {
		txt = []string{s}
	}
	return
}

func (s *timeSlot) show(n string, want []string, list bool, bad func(string, interface{})) {
	js, txt, err := shown(slotBase[s]+n, list)
	if err != nil {
		bad("reading "+n+": "+err.Error(), want)
		return
	}
	if fmt.Sprint(js) != fmt.Sprint(want) || len(js) != len(want) {
		bad("in JSON", map[string]interface{}{"metric": n, "unit": s.unit, "got": js, "want": want})
	}
	if fmt.Sprint(txt) != fmt.Sprint(want) || len(txt) != len(want) {
		bad("in text", map[string]interface{}{"metric": n, "unit": s.unit, "got": txt, "want": want})
	}
	count("shown", 1)
}

func timeRun(rng *rand.Rand, i int, raw json.RawMessage, prev *map[string][]timeCase) {
	var c timeCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	bad := func(what string, d interface{}) { mismatch(c13, what, d, raw) }
	u := units.Unit(c.U)
	base := messages.Metric{Path: "/a/b", Description: "x", Unit: u, GroupId: rng.Intn(100)}
	stamp := someZone(rng, time.Unix(1500000000+rng.Int63n(1000), rng.Int63n(1000000000)))
	base.TimeStamp = stamp
	jstamp := fmt.Sprintf("%d.%09d", stamp.Unix(), stamp.Nanosecond())
	s := slot(c.U)
	// others of the same kind and unit, to make lists
	pk := c.K + "/" + c.U
	olds := (*prev)[pk]
	if len(olds) > 4 {
		olds = olds[len(olds)-4:]
	}
	(*prev)[pk] = append(append([]timeCase{}, olds...), c)
	l := append(append([]timeCase{}, olds...), c)
	rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	var strs []string
	for _, x := range l {
		strs = append(strs, x.S)
	}
	switch c.K {
	case "dur":
		d := c.duration()
		dd := duration.New(d)
		if g := dd.StringUsingUnits(u); g != c.S {
			bad("StringUsingUnits", g)
		}
		if g := dd.String(); u == units.Second && g != c.S {
			bad("String", g)
		}
		if g, err := duration.ParseWithUnit(c.S, u); err != nil || g.AsGoDuration() != d {
			bad("ParseWithUnit", fmt.Sprint(g, err))
		}
		m := base
		m.Kind, m.Value = types.GoDuration, d
		conv(m, c.S, types.Duration, "", jstamp, bad)
		m.TimeStamp = nil
		m.Kind, m.SubType = types.List, types.GoDuration
		var v []time.Duration
		for _, x := range l {
			v = append(v, x.duration())
		}
		m.Value = v
		w := m
		w.ConvertToJson()
		if w.TimeStamp != "" {
			bad("no timestamp becomes", w.TimeStamp)
		}
		m.TimeStamp = stamp
		conv(m, strs, types.List, types.Duration, jstamp, bad)
		s.dur = d
		s.show("/dv", []string{c.S}, false, bad)
		s.show("/df", []string{c.S}, false, bad)
		s.dl.Change(v, true)
		s.show("/dl", strs, true, bad)
	case "time":
		t := someZone(rng, c.time())
		if t.IsZero() {
			fatal("zero time", string(raw))
		}
		dd := duration.SinceEpoch(t)
		if g := dd.StringUsingUnits(u); g != c.S {
			bad("StringUsingUnits", g)
		}
		if g, err := duration.ParseWithUnit(c.S, u); err != nil || !g.AsGoTime().Equal(t) {
			bad("ParseWithUnit", fmt.Sprint(g, err))
		}
		m := base
		m.Kind, m.Value = types.GoTime, t
		conv(m, c.S, types.Time, "", jstamp, bad)
		if u == units.Second {
			x := base
			x.Kind, x.Value = types.Int64, int64(7)
			x.TimeStamp = t
			conv(x, int64(7), types.Int64, "", c.S, bad)
			x.Unit = units.Millisecond
			conv(x, int64(7), types.Int64, "", c.S, bad)
		}
		m.Kind, m.SubType = types.List, types.GoTime
		var v []time.Time
		for _, x := range l {
			v = append(v, someZone(rng, x.time()))
		}
		m.Value = v
		conv(m, strs, types.List, types.Time, jstamp, bad)
		s.tm, s.ptm = t, &t
		s.show("/tv", []string{c.S}, false, bad)
		s.show("/tf", []string{c.S}, false, bad)
		s.show("/tp", []string{c.S}, false, bad)
		s.show("/tpf", []string{c.S}, false, bad)
		s.tl.Change(v, true)
		s.show("/tl", strs, true, bad)
	case "zero":
		m := base
		m.Kind, m.Value = types.GoTime, someZone(rng, time.Time{})
		m.ConvertToJson()
		if m.Value != c.S || m.Kind != types.Time {
			bad("the zero time", m)
		}
		m = base
		m.Kind, m.SubType, m.Value = types.List, types.GoTime, []time.Time{someZone(rng, time.Time{}), someZone(rng, time.Time{})}
		m.ConvertToJson()
		if !sameVal(m.Value, []string{c.S, c.S}) {
			bad("the zero time in a list", m)
		}
		s.tm, s.ptm = someZone(rng, time.Time{}), nil
		for _, n := range []string{"/tv", "/tf", "/tp", "/tpf"} {
			s.show(n, []string{c.S}, false, bad)
		}
		s.ptm = &s.tm
		s.show("/tpf", []string{c.S}, false, bad)
		s.show("/tp", []string{c.S}, false, bad)
		s.tl.Change([]time.Time{someZone(rng, time.Time{}), someZone(rng, time.Time{})}, true)
		s.show("/tl", []string{c.S, c.S}, true, bad)
		s.tl.Change([]time.Time{}, true)
		s.show("/tl", nil, true, bad)
		s.dl.Change([]time.Duration{}, true)
		s.show("/dl", nil, true, bad)
	case "str":
		g, err := duration.ParseWithUnit(c.S, u)
		if err != nil || g.AsGoDuration() != c.duration() || !g.AsGoTime().Equal(c.time()) {
			bad("ParseWithUnit", fmt.Sprint(g, err))
		}
		m := base
		m.Kind, m.Value, m.TimeStamp = types.Duration, c.S, jstamp
		if err := m.ConvertToGoRPC(); err != nil || m.Value != c.duration() || m.Kind != types.GoDuration || !sameVal(m.TimeStamp, stamp) {
			bad("ConvertToGoRPC of a duration", fmt.Sprint(m, err))
		}
		m = base
		m.Kind, m.Value, m.TimeStamp = types.Time, c.S, jstamp
		if err := m.ConvertToGoRPC(); err != nil || !sameVal(m.Value, c.time()) || m.Kind != types.GoTime {
			bad("ConvertToGoRPC of a time", fmt.Sprint(m, err))
		}
		if u == units.Second {
			m = base
			m.Kind, m.Value, m.TimeStamp, m.Unit = types.Int8, int8(3), c.S, units.Millisecond
			if err := m.ConvertToGoRPC(); err != nil || !sameVal(m.TimeStamp, c.time()) || m.Value != int8(3) {
				bad("ConvertToGoRPC of a timestamp", fmt.Sprint(m, err))
			}
		}
	case "bad":
		if g, err := duration.ParseWithUnit(c.S, u); err == nil {
			bad("ParseWithUnit accepts a malformed string", fmt.Sprintf("%q %v", c.S, g))
		}
		refuse := func(m messages.Metric) {
			o := m
			// a copy, to see whether the elements of lists stay
			if l, ok := m.Value.([]string); ok {
				o.Value = append([]string{}, l...)
			}
			if err := m.ConvertToGoRPC(); err == nil {
				bad("ConvertToGoRPC accepts", fmt.Sprintf("%+v", o))
			} else if !sameMetric(&m, &o) {
				bad("a failed ConvertToGoRPC changed the metric", fmt.Sprintf("%+v into %+v", o, m))
			}
			count("refused", 1)
		}
		m := base
		if rng.Intn(2) == 0 {
			m.TimeStamp = jstamp
		}
		m.Kind, m.Value = types.Duration, c.S
		refuse(m)
		m.Kind = types.Time
		refuse(m)
		good := []string{"1.000000000", "-2.500000000", "77"}
		p := rng.Intn(4)
		bl := append(append(append([]string{}, good[:p]...), c.S), good[p:]...)
		m.Kind, m.SubType, m.Value = types.List, types.Duration, bl
		refuse(m)
		m.SubType = types.Time
		refuse(m)
		if c.S == "" {
			break
		}
		// the timestamp, with values of all kinds
		m = base
		m.TimeStamp = c.S
		m.Kind, m.Value = types.Duration, "1.500000000"
		refuse(m)
		m.Kind, m.Value = types.Time, "1.500000000"
		refuse(m)
		m.Kind, m.SubType, m.Value = types.List, types.Time, good
		refuse(m)
		m.Kind, m.SubType, m.Value = types.String, "", "x"
		refuse(m)
		m = base
		for _, v := range []interface{}{5, nil, 2.5, time.Second, []string{"1"}, []byte("1")} {
			m.Kind, m.SubType, m.Value = types.Duration, "", v
			refuse(m)
			m.Kind = types.Time
			refuse(m)
		}
		for _, v := range []interface{}{5, nil, "1.0", []int{1}, []time.Duration{1}, []interface{}{"1.0"}} {
			m.Kind, m.SubType, m.Value = types.List, types.Duration, v
			refuse(m)
			m.SubType = types.Time
			refuse(m)
		}
		m.Kind, m.SubType, m.Value = types.Int8, "", int8(1)
		for _, v := range []interface{}{5, 1.5, int64(8), []byte("1")} {
			m.TimeStamp = v
			refuse(m)
		}
	default:
		fatal(c.K)
	}
}

func digits(n *big.Int) map[string]interface{} {
	return map[string]interface{}{"neg": n.Sign() < 0, "ns": new(big.Int).Abs(n).String()}
}

func init() {
	commands["timeconv"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("timeconv", *fShard))
		prev := map[string][]timeCase{}
		cases(func(i int, raw json.RawMessage) { timeRun(rng, i, raw, &prev) })
	}
	// random times and durations, for the specification to judge
	commands["timeconv-rand"] = func() {
		rng := newRand(*fSeed, fmt.Sprint("timeconvrand", *fShard))
		tw := newTrace()
		us := []units.Unit{units.None, units.Millisecond, units.Second, units.Celsius, units.Byte, units.BytePerSecond, units.Unknown, "Furlongs", "milliseconds"}
		for n := 0; n < *fN; n++ {
			var ev []rec
			for j := 0; j < 50; j++ {
				u := us[rng.Intn(len(us))]
				if rng.Intn(2) == 0 {
					u = units.Millisecond
				}
				s := slot(string(u))
				m := messages.Metric{Path: "/r", Unit: u, TimeStamp: time.Now()}
				var x *big.Int
				n := ""
				if rng.Intn(2) == 0 {
					d := time.Duration(rng.Uint64() >> uint(rng.Intn(64)))
					if rng.Intn(2) == 0 {
						d = -d
					}
					x = big.NewInt(int64(d))
					m.Kind, m.Value = types.GoDuration, d
					s.dur = d
					s.dl.Change([]time.Duration{d}, false)
					n = []string{"dv", "df", "dl"}[rng.Intn(3)]
				} else {
					t := time.Unix(rng.Int63n(253402300800+62135596799)-62135596799, rng.Int63n(1000000000))
					switch rng.Intn(4) {
					case 0:
						t = time.Unix(rng.Int63n(1000)-500, rng.Int63n(1000000000))
					case 2: // as far as milliseconds go
						t = time.Unix((rng.Int63n(18446744073709550)-9223372036854775)>>uint(rng.Intn(30)), rng.Int63n(1000000000))
					case 1:
						t = time.Unix(t.Unix(), []int64{0, 1, 999999999, 500000000, 1000, 1000000}[rng.Intn(6)])
					}
					x = new(big.Int).Add(new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000)), big.NewInt(int64(t.Nanosecond())))
					m.Kind, m.Value = types.GoTime, t
					s.tm, s.ptm = t, &t
					s.tl.Change([]time.Time{t}, false)
					n = []string{"tv", "tf", "tl", "tp", "tpf"}[rng.Intn(5)]
				}
				k := m.Kind
				m.ConvertToJson()
				str, ok := m.Value.(string)
				if !ok {
					mismatch(c13, "ConvertToJson", fmt.Sprintf("%+v", m), nil)
					continue
				}
				if rng.Intn(2) == 0 {
					js, txt, err := shown(slotBase[s]+"/"+n, n == "dl" || n == "tl")
					if err != nil || len(js) != 1 || len(txt) != 1 || js[0] != txt[0] {
						mismatch(c13, "JSON and text", fmt.Sprint(js, txt, err), nil)
						continue
					}
					str = js[0]
				}
				if err := m.ConvertToGoRPC(); err != nil || m.Kind != k {
					mismatch(c13, "ConvertToGoRPC", fmt.Sprintf("%+v %v", m, err), nil)
					continue
				}
				var b *big.Int
				if t, ok := m.Value.(time.Time); ok {
					b = new(big.Int).Add(new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000)), big.NewInt(int64(t.Nanosecond())))
				} else {
					b = big.NewInt(int64(m.Value.(time.Duration)))
				}
				ev = append(ev, rec{"u": string(u), "x": digits(x), "s": str, "back": digits(b)})
				count("conversions", 1)
			}
			tw.put(rec{"ev": ev})
			count("histories", 1)
		}
		tw.close()
	}
}
