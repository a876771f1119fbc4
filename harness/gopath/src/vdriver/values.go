package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

type (
	myBool    bool
	myInt     int
	myInt8    int8
	myInt16   int16
	myInt32   int32
	myInt64   int64
	myUint    uint
	myUint8   uint8
	myUint16  uint16
	myUint32  uint32
	myUint64  uint64
	myFloat32 float32
	myFloat64 float64
	myString  string
	myDur     time.Duration // an int64 to the API
	mySlice   []int64
	myStrings []string
)

// goKind is a Go type that can be a metric.
type goKind struct {
	name string
	t    reflect.Type
	api  reflect.Type  // what the API uses for it
	kind types.Type    // and calls it
	vals []interface{} // of type api
}

func rt(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var (
	boolVals = []interface{}{false, true}
	i8Vals   = []interface{}{int8(0), int8(1), int8(-1), int8(127), int8(-128), int8(42)}
	i16Vals  = []interface{}{int16(0), int16(1), int16(-1), int16(32767), int16(-32768), int16(300), int16(-129)}
	i32Vals  = []interface{}{int32(0), int32(1), int32(-1), int32(math.MaxInt32), int32(math.MinInt32), int32(70000), int32(-32769), int32(1 << 24)}
	i64Vals  = []interface{}{int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1<<53 + 1), int64(-1<<53 - 1), int64(math.MaxInt32 + 1), int64(math.MinInt32 - 1), int64(1000000007)}
	u8Vals   = []interface{}{uint8(0), uint8(1), uint8(255), uint8(128), uint8(127)}
	u16Vals  = []interface{}{uint16(0), uint16(1), uint16(65535), uint16(32768), uint16(256)}
	u32Vals  = []interface{}{uint32(0), uint32(1), uint32(math.MaxUint32), uint32(1 << 31), uint32(65536)}
	u64Vals  = []interface{}{uint64(0), uint64(1), uint64(math.MaxUint64), uint64(1 << 63), uint64(1<<53 + 1), uint64(1 << 32), uint64(math.MaxInt64)}
	f32Vals  = []interface{}{float32(0), float32(1), float32(-1.5), float32(0.1), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(-3.4e38), float32(16777217), float32(1e-7)}
	f64Vals  = []interface{}{float64(0), float64(1), float64(-1.5), 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e308, 1e21, 123456789.123456789, 1e-7, math.Pi, float64(1<<53 + 2)}
	strVals  = []interface{}{"", "a", "hello world", "x|y", "a\"b", "<b>&amp;</b>", "日本語", "tab\there", "back\\slash", "'quoted'", strings.Repeat("long", 600), "0", "{{.}}", " lead", "trail "}
	durVals  = []interface{}{time.Duration(0), time.Duration(1), time.Duration(-1), time.Second, -time.Second, time.Duration(math.MaxInt64), time.Duration(math.MinInt64), 1500 * time.Millisecond, -1500 * time.Microsecond, 26 * time.Hour, time.Duration(999999999), time.Duration(-1000000001)}
	timeVals = []interface{}{time.Time{}, time.Unix(0, 0), time.Unix(0, 1), time.Unix(-1, 999999999), time.Unix(1468442100, 123456789),
		time.Unix(1<<33, 5), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 500, time.UTC),
		time.Date(2016, 7, 13, 20, 35, 0, 0, time.FixedZone("x", -7*3600))}
)

var goKinds = []goKind{
	{"bool", rt(false), rt(false), types.Bool, boolVals},
	{"int", rt(int(0)), rt(int64(0)), types.Int64, i64Vals},
	{"int8", rt(int8(0)), rt(int8(0)), types.Int8, i8Vals},
	{"int16", rt(int16(0)), rt(int16(0)), types.Int16, i16Vals},
	{"int32", rt(int32(0)), rt(int32(0)), types.Int32, i32Vals},
	{"int64", rt(int64(0)), rt(int64(0)), types.Int64, i64Vals},
	{"uint", rt(uint(0)), rt(uint64(0)), types.Uint64, u64Vals},
	{"uint8", rt(uint8(0)), rt(uint8(0)), types.Uint8, u8Vals},
	{"uint16", rt(uint16(0)), rt(uint16(0)), types.Uint16, u16Vals},
	{"uint32", rt(uint32(0)), rt(uint32(0)), types.Uint32, u32Vals},
	{"uint64", rt(uint64(0)), rt(uint64(0)), types.Uint64, u64Vals},
	{"float32", rt(float32(0)), rt(float32(0)), types.Float32, f32Vals},
	{"float64", rt(float64(0)), rt(float64(0)), types.Float64, f64Vals},
	{"string", rt(""), rt(""), types.String, strVals},
	{"time", rt(time.Time{}), rt(time.Time{}), types.GoTime, timeVals},
	{"duration", rt(time.Duration(0)), rt(time.Duration(0)), types.GoDuration, durVals},
	{"user bool", rt(myBool(false)), rt(false), types.Bool, boolVals},
	{"user int", rt(myInt(0)), rt(int64(0)), types.Int64, i64Vals},
	{"user int8", rt(myInt8(0)), rt(int8(0)), types.Int8, i8Vals},
	{"user int16", rt(myInt16(0)), rt(int16(0)), types.Int16, i16Vals},
	{"user int32", rt(myInt32(0)), rt(int32(0)), types.Int32, i32Vals},
	{"user int64", rt(myInt64(0)), rt(int64(0)), types.Int64, i64Vals},
	{"user uint", rt(myUint(0)), rt(uint64(0)), types.Uint64, u64Vals},
	{"user uint8", rt(myUint8(0)), rt(uint8(0)), types.Uint8, u8Vals},
	{"user uint16", rt(myUint16(0)), rt(uint16(0)), types.Uint16, u16Vals},
	{"user uint32", rt(myUint32(0)), rt(uint32(0)), types.Uint32, u32Vals},
	{"user uint64", rt(myUint64(0)), rt(uint64(0)), types.Uint64, u64Vals},
	{"user float32", rt(myFloat32(0)), rt(float32(0)), types.Float32, f32Vals},
	{"user float64", rt(myFloat64(0)), rt(float64(0)), types.Float64, f64Vals},
	{"user string", rt(myString("")), rt(""), types.String, strVals},
	{"user duration", rt(myDur(0)), rt(int64(0)), types.Int64, i64Vals},
}

func kindNamed(n string) *goKind {
	for i := range goKinds {
		if goKinds[i].name == n {
			return &goKinds[i]
		}
	}
	fatal("no Go type", n)
	return nil
}

// canon writes a value of the API so that equal means same value.
func canon(v interface{}) string {
	switch x := v.(type) {
	case float32:
		return "f" + strconv.FormatFloat(float64(x), 'g', -1, 32)
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case time.Time:
		// the zero time is one of its own
		return fmt.Sprintf("t%d.%09d", x.Unix(), x.Nanosecond())
	case time.Duration:
		return fmt.Sprintf("d%d", int64(x))
	case string:
		return "s" + x
	}
	return fmt.Sprint(v)
}

// canonAll: the values of a slice, or of a single value.
func canonAll(v interface{}) []string {
	rv := reflect.ValueOf(v)
	if v == nil {
		return []string{"nil"}
	}
	if rv.Kind() != reflect.Slice {
		return []string{canon(v)}
	}
	r := []string{}
	for i := 0; i < rv.Len(); i++ {
		r = append(r, canon(rv.Index(i).Interface()))
	}
	return r
}

// metObs is one reading of a metric, in whatever encoding, as far as it shows.
type metObs struct {
	Path, Desc string
	Unit       string
	Kind, Sub  types.Type // goTime and goDuration also in JSON
	Bits       int
	Gid        int
	TS         time.Time
	Vals       []string // canonical
	GoType     string   // in-process and RPC
	Dist       *messages.Distribution
	raw        interface{}
	meta       bool // everything but the value is known
	exact      bool // the zero time is told from the epoch
}

func obsOf(m *messages.Metric) (*metObs, error) {
	ts, ok := m.TimeStamp.(time.Time)
	if !ok {
		return nil, fmt.Errorf("timestamp is a %T", m.TimeStamp)
	}
	o := &metObs{Path: m.Path, Desc: m.Description, Unit: string(m.Unit), Kind: m.Kind, Sub: m.SubType, Bits: m.Bits, Gid: m.GroupId, TS: ts,
		GoType: fmt.Sprintf("%T", m.Value), raw: m.Value, meta: true, exact: true}
	if d, ok := m.Value.(*messages.Distribution); ok {
		o.Dist = d
	} else {
		o.Vals = canonAll(m.Value)
	}
	return o, nil
}

// nanos reads a decimal number of units exactly, in nanoseconds.
func nanos(s string, unit units.Unit) (*big.Int, error) {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil, fmt.Errorf("not a number: %q", s)
	}
	if i := strings.Index(s, "."); i < 0 || len(s)-i-1 != 9 {
		return nil, fmt.Errorf("not nine digits: %q", s)
	}
	f := int64(1e9)
	if unit == units.Millisecond {
		f = 1e6
	}
	r.Mul(r, new(big.Rat).SetInt64(f))
	if !r.IsInt() {
		return nil, fmt.Errorf("fractions of nanoseconds: %q", s)
	}
	return r.Num(), nil
}

var zeroTimeNs = func() *big.Int {
	n := new(big.Int).Mul(big.NewInt(time.Time{}.Unix()), big.NewInt(1e9))
	return n
}()

func canonNanos(n *big.Int, kind types.Type) string {
	if kind == types.GoDuration {
		return "d" + n.String()
	}
	q, r := new(big.Int), new(big.Int)
	q.DivMod(n, big.NewInt(1e9), r)
	return fmt.Sprintf("t%s.%09d", q, r.Int64())
}

type jsonMet struct {
	Path, Description, Unit string
	Kind, SubType           types.Type
	Bits                    int
	Value                   json.RawMessage
	Timestamp               string
	GroupId                 int
}

// canonJSON: one value of JSON in canonical form.
func canonJSON(raw json.RawMessage, kind types.Type, unit units.Unit) (string, error) {
	s := string(raw)
	switch {
	case kind == types.Bool:
		if s != "true" && s != "false" {
			return "", fmt.Errorf("bool is %s", s)
		}
		return s, nil
	case kind.IsInt() || kind.IsUint():
		if _, ok := new(big.Int).SetString(s, 10); !ok {
			return "", fmt.Errorf("integer is %s", s)
		}
		return s, nil
	case kind.IsFloat():
		bits := 64
		if kind == types.Float32 {
			bits = 32
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			return "", err
		}
		return "f" + strconv.FormatFloat(f, 'g', -1, bits), nil
	}
	var x string
	if err := json.Unmarshal(raw, &x); err != nil {
		return "", err
	}
	if kind == types.String {
		return "s" + x, nil
	}
	n, err := nanos(x, unit)
	if err != nil {
		return "", err
	}
	return canonNanos(n, kind), nil
}

func obsOfJSON(m *jsonMet) (*metObs, error) {
	ts, err := parseJSONTime(m.Timestamp)
	if err != nil {
		return nil, err
	}
	back := func(t types.Type) types.Type {
		switch t {
		case types.Time:
			return types.GoTime
		case types.Duration:
			return types.GoDuration
		case types.GoTime, types.GoDuration:
			return "wrong-" + t
		}
		return t
	}
	o := &metObs{Path: m.Path, Desc: m.Description, Unit: m.Unit, Kind: back(m.Kind), Sub: back(m.SubType), Bits: m.Bits, Gid: m.GroupId, TS: ts, meta: true}
	switch o.Kind {
	case types.Dist:
		o.Dist = &messages.Distribution{}
		return o, json.Unmarshal(m.Value, o.Dist)
	case types.List:
		o.Vals = []string{}
		if o.Sub == types.Uint8 {
			var b []byte
			if err := json.Unmarshal(m.Value, &b); err != nil {
				return nil, err
			}
			for _, x := range b {
				o.Vals = append(o.Vals, fmt.Sprint(x))
			}
			return o, nil
		}
		var l []json.RawMessage
		if err := json.Unmarshal(m.Value, &l); err != nil {
			return nil, err
		}
		if l == nil {
			return nil, fmt.Errorf("the list is null")
		}
		for _, r := range l {
			c, err := canonJSON(r, o.Sub, units.Unit(m.Unit))
			if err != nil {
				return nil, err
			}
			o.Vals = append(o.Vals, c)
		}
	default:
		c, err := canonJSON(m.Value, o.Kind, units.Unit(m.Unit))
		if err != nil {
			return nil, err
		}
		o.Vals = []string{c}
	}
	return o, nil
}

// obsOfText reads the text of a metric whose kind is known.
func obsOfText(s string, kind, sub types.Type, unit units.Unit) (*metObs, error) {
	one := func(s string, k types.Type) (string, error) {
		switch {
		case k == types.String:
			if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
				return "", fmt.Errorf("string is %s", s)
			}
			return "s" + s[1:len(s)-1], nil
		case k == types.GoTime || k == types.GoDuration:
			n, err := nanos(s, unit)
			if err != nil {
				return "", err
			}
			return canonNanos(n, k), nil
		}
		return canonJSON(json.RawMessage(s), k, unit)
	}
	o := &metObs{Kind: kind, Sub: sub, Vals: []string{}}
	if kind != types.List {
		c, err := one(s, kind)
		o.Vals = []string{c}
		return o, err
	}
	if s == "" {
		return o, nil
	}
	parts := strings.Split(s, "|")
	if sub == types.String {
		// the separator may occur in an element
		if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
			return nil, fmt.Errorf("strings are %s", s)
		}
		for _, p := range strings.Split(s[1:len(s)-1], `"|"`) {
			o.Vals = append(o.Vals, "s"+p)
		}
		return o, nil
	}
	for _, p := range parts {
		c, err := one(p, sub)
		if err != nil {
			return nil, err
		}
		o.Vals = append(o.Vals, c)
	}
	return o, nil
}

// ownJSONTime: the zero time and the epoch both are 0 in JSON and text.
func foldZero(c string) string {
	if c == canon(time.Time{}) {
		return canon(time.Unix(0, 0))
	}
	return c
}

func foldZeros(cs []string, kind types.Type) []string {
	if kind != types.GoTime {
		return cs
	}
	r := []string{}
	for _, c := range cs {
		r = append(r, foldZero(c))
	}
	return r
}

var valIfaces = []string{"read", "rpc-list", "rpc-get", "json-list", "json-get", "text"}

// readMetric reads one metric by an interface. The kinds are needed for text only.
func readMetric(path, iface string, kind, sub types.Type, unit units.Unit) (*metObs, error) {
	one := func(l messages.MetricList) (*metObs, error) {
		if len(l) != 1 {
			return nil, fmt.Errorf("%d metrics", len(l))
		}
		return obsOf(l[0])
	}
	switch iface {
	case "read":
		return one(tricorder.ReadMyMetrics(path))
	case "rpc-list":
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		return one(l)
	case "rpc-get":
		m, err := rpcGet(path)
		if err != nil {
			return nil, err
		}
		return obsOf(m)
	case "text":
		w := httpGetF(reqURI("/metrics", path, "format=text"), nil)
		s := w.Body.String()
		if w.Code != 200 || !strings.HasSuffix(s, "\n") {
			return nil, fmt.Errorf("status %d, text %q", w.Code, s)
		}
		o, err := obsOfText(s[:len(s)-1], kind, sub, unit)
		if err != nil {
			return nil, fmt.Errorf("%v in %q", err, s)
		}
		return o, nil
	}
	q := ""
	if iface == "json-get" {
		q = "singleton=true"
	}
	w := httpGetF(reqURI("/metricsapi", path, q), nil)
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d", w.Code)
	}
	if q == "" {
		var l []*jsonMet
		if err := json.Unmarshal(w.Body.Bytes(), &l); err != nil {
			return nil, err
		}
		if len(l) != 1 {
			return nil, fmt.Errorf("%d metrics", len(l))
		}
		return obsOfJSON(l[0])
	}
	var m jsonMet
	if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil {
		return nil, err
	}
	return obsOfJSON(&m)
}

// textable: can the text interface show it unambiguously?
func textable(v interface{}) bool {
	s, ok := v.(string)
	return !ok || !strings.ContainsAny(s, "\n") && utf8.ValidString(s) && !strings.Contains(s, `"|"`)
}

// convertTo makes a value of the Go type from one of the API.
func convertTo(v interface{}, t reflect.Type) reflect.Value { return reflect.ValueOf(v).Convert(t) }
