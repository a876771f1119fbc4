From 377cc520dfcb2d9469a08513001b7dcc06aede91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:23 +0000
Subject: [PATCH 01/16] fix: report CPU time microseconds as microseconds, not
 nanoseconds

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From fa429d8d72f89139e252183ff5a8484476a9b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:23 +0000
Subject: [PATCH 02/16] fix: report generation and kind of distributions that
 are empty

---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 190de0d3da00cbcc5c69f27cf4c6cc273c2f4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:23 +0000
Subject: [PATCH 03/16] fix: read variable before closing internally created
 session

When evaluating a variable without a session, e.g. for a single metric in
text format, the variable was read after its group had been released, and
so could be read while the group's update function was running.
---
 go/tricorder/metric.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..7e7653b 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -944,14 +944,23 @@ func (v *value) canEvaluate() bool {
 }
 
 func (v *value) evaluate(s *session) reflect.Value {
+	ownSession := false
 	if v.region != nil {
 		if s == nil {
 			s = newSession()
 			defer s.Close()
+			ownSession = true
 		}
 		s.Visit(v.region)
 	}
 	if !v.isfunc {
+		if ownSession {
+			// Our session closes before the caller reads the variable,
+			// so read it now.
+			result := reflect.New(v.val.Type()).Elem()
+			result.Set(v.val)
+			return result
+		}
 		return v.val
 	}
 	result := v.val.Call(nil)[0]
-- 
2.43.0


From 663ff57847bf75da66a3f632134dd5a79f4e6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 04/16] fix: report values of user defined types as the
 documented types

A metric of e.g. type 'type Status string' was reported as a value of that
type, which cannot be encoded in a Go RPC response, so that every response
containing it failed.
---
 go/tricorder/metric.go | 63 ++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 7e7653b..ce5c463 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,28 +608,10 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts value to a slice of type newType, the slice type the API uses for
+// lists having sub-type t.
+func convertSlice(
+	value reflect.Value, t types.Type, newType reflect.Type) reflect.Value {
 	length := value.Len()
 	defensiveCopy := reflect.MakeSlice(newType, length, length)
 	for i := 0; i < length; i++ {
@@ -646,7 +628,9 @@ func convertFromIntOrUintSlice(
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
 // may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// or []uint, returned value will be size specific, e.g []int64. If aSlice or
+// its elements are of a user defined type, returned value will be of the
+// corresponding predeclared type.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,9 +642,9 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	// []int, []uint, and slices of or with user defined types need converting
+	if apiType := reflect.TypeOf(t.NilSlice()); value.Type() != apiType {
+		value = convertSlice(value, t, apiType)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
@@ -1069,27 +1053,40 @@ func valueToInterface(
 	value reflect.Value,
 	t types.Type,
 	isValueAPointer bool) interface{} {
-	// Int32, Int64, Uint32, and Uint64 cases are necessary in case
-	// client passed an int or uint pointer to RegisterMetric.
+	// Each type needs its own case in case client passed an int or uint
+	// pointer or a pointer to a user defined type to RegisterMetric.
 	// If we were to just call v.evaluate(s).Interface() we would return
-	// that plain int or uint instead of a sized int or uint and violate
-	// the contract of the API which specifies that the value is always
-	// a sized int or uint.
+	// that plain int or uint or that user defined type instead of the
+	// type the API specifies for t.
 	switch {
+	case t == types.Bool && !isValueAPointer:
+		return value.Bool()
+	case t == types.Int8 && !isValueAPointer:
+		return int8(value.Int())
+	case t == types.Int16 && !isValueAPointer:
+		return int16(value.Int())
 	case t == types.Int32 && !isValueAPointer:
 		return int32(value.Int())
 	case t == types.Int64 && !isValueAPointer:
 		return int64(value.Int())
+	case t == types.Uint8 && !isValueAPointer:
+		return uint8(value.Uint())
+	case t == types.Uint16 && !isValueAPointer:
+		return uint16(value.Uint())
 	case t == types.Uint32 && !isValueAPointer:
 		return uint32(value.Uint())
 	case t == types.Uint64 && !isValueAPointer:
 		return uint64(value.Uint())
+	case t == types.Float32 && !isValueAPointer:
+		return float32(value.Float())
+	case t == types.Float64 && !isValueAPointer:
+		return value.Float()
+	case t == types.String && !isValueAPointer:
+		return value.String()
 	case t == types.GoTime:
 		return valueToTime(value, isValueAPointer)
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
-	case !isValueAPointer:
-		return value.Interface()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From 2716ba2ee62782002dd4ffd71dd45edd52b3c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:23 +0000
Subject: [PATCH 05/16] fix: return ErrWrongType for metrics that are not
 pointers or callable functions

RegisterMetric panicked on nil and on values other than pointers, and accepted
functions taking arguments, which made every response containing them panic.
---
 go/tricorder/metric.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ce5c463..6850292 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -861,8 +861,15 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isValAPointer: isValAPointer}, nil
 	}
 	v := reflect.ValueOf(spec)
+	if !v.IsValid() {
+		return nil, ErrWrongType
+	}
 	t := v.Type()
 	if t.Kind() == reflect.Func {
+		// We call our functions with no arguments
+		if v.IsNil() || t.NumIn() > 0 && !(t.NumIn() == 1 && t.IsVariadic()) {
+			return nil, ErrWrongType
+		}
 		funcArgCount := t.NumOut()
 
 		// Our functions have to return exactly one thing
@@ -881,6 +888,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isfunc:        true,
 			isValAPointer: isValAPointer}, nil
 	}
+	if t.Kind() != reflect.Ptr || v.IsNil() {
+		return nil, ErrWrongType
+	}
 	v = v.Elem()
 	valType, isValAPointer, ok := getPrimitiveType(v.Type())
 	if !ok {
-- 
2.43.0


From 6126fcbcefe6626c23a0e32e031478279736abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 06/16] fix: do not fail a JSON response because of one
 non-finite value

Single NaN or infinite values are left out of responses, but a NaN in a list or
distribution, or a callback returning a number first and NaN afterwards, made
the whole JSON response fail.
---
 go/tricorder/json.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..e35b324 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -20,7 +20,14 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 type jsonMetricsCollector messages.MetricList
 
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	metric := jsonAsMetric(m, s)
+	// JSON cannot represent NaN or infinity. Skip lists and distributions
+	// containing them as well as callbacks that just now returned them
+	// rather than failing the entire response.
+	if _, err := json.Marshal(metric.Value); err != nil {
+		return nil
+	}
+	*c = append(*c, metric)
 	return nil
 }
 
-- 
2.43.0


From 467c16ea6438036f5dbe2c944bafc1b88d7c0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 07/16] fix: round correctly when converting floats to
 durations and integers

Negative durations were off by one nanosecond, and integers of 2^52 and above
as well as the largest float below 0.5 were off by one.
---
 go/tricorder/duration/api.go | 3 ++-
 go/tricorder/types/types.go  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..2d0c6cb 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,13 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From ec1efa9582b03238221f35087451418dabc3cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 08/16] fix: escape directory names in the links of the HTML
 pages

---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..c301f5c 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,8 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	link := url.URL{Path: htmlUrl + d.AbsPath()}
+	return link.String()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From 6f6d0ea82889a03f8792d4a9b0ce2b989c1b2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 09/16] fix: report flags whose getter returns nil by their
 string form

---
 go/tricorder/metric.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 6850292..35b1c44 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -842,8 +842,13 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer bool
+		ok := false
+		// TypeOf returns nil if Get returns a nil interface
+		if t := reflect.TypeOf(flagGetter.Get()); t != nil {
+			valType, isValAPointer, ok = getPrimitiveType(t)
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
-- 
2.43.0


From e279c9b41820245a68d808eea766ad445044c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:20 +0000
Subject: [PATCH 10/16] fix: report a distribution or list registered twice
 only one way per request

---
 go/tricorder/metric.go | 48 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 35b1c44..ff1918e 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -74,10 +74,46 @@ var (
 // it is up to the function to create its own session if necessary.
 type session struct {
 	visitedRegions map[*region]time.Time
+	// What this session already fetched from distributions and lists
+	snapshots    map[*distribution]*snapshot
+	listContents map[*listType]listContents
 }
 
 func newSession() *session {
-	return &session{visitedRegions: make(map[*region]time.Time)}
+	return &session{
+		visitedRegions: make(map[*region]time.Time),
+		snapshots:      make(map[*distribution]*snapshot),
+		listContents:   make(map[*listType]listContents)}
+}
+
+// Snapshot returns the snapshot of d. Calling Snapshot on the same session
+// with the same distribution always returns the same snapshot so that one
+// request reports a distribution registered under several paths only one way.
+// s may be nil.
+func (s *session) Snapshot(d *distribution) *snapshot {
+	if s == nil {
+		return d.Snapshot()
+	}
+	result, ok := s.snapshots[d]
+	if !ok {
+		result = d.Snapshot()
+		s.snapshots[d] = result
+	}
+	return result
+}
+
+// ListContents works like Snapshot but returns the values and the timestamp
+// of l.
+func (s *session) ListContents(l *listType) (interface{}, time.Time) {
+	if s == nil {
+		return l.AsSlice()
+	}
+	result, ok := s.listContents[l]
+	if !ok {
+		result.aSlice, result.timeStamp = l.AsSlice()
+		s.listContents[l] = result
+	}
+	return result.aSlice, result.timeStamp
 }
 
 // Visit indicates that caller is about to fetch metrics from a
@@ -594,6 +630,12 @@ func (d *distribution) Snapshot() *snapshot {
 
 }
 
+// listContents represents the contents of a list at a point in time
+type listContents struct {
+	aSlice    interface{}
+	timeStamp time.Time
+}
+
 type listType struct {
 	groupId   int
 	subType   types.Type
@@ -1159,7 +1201,7 @@ func (v *value) updateJsonOrRpcMetric(
 	switch t {
 	case types.Dist:
 		dist := v.AsDistribution()
-		snapshot := dist.Snapshot()
+		snapshot := s.Snapshot(dist)
 		metric.Value = &messages.Distribution{
 			Min:             snapshot.Min,
 			Max:             snapshot.Max,
@@ -1174,7 +1216,7 @@ func (v *value) updateJsonOrRpcMetric(
 		metric.TimeStamp = snapshot.TimeStamp
 	case types.List:
 		alist := v.AsList()
-		metric.Value, metric.TimeStamp = alist.AsSlice()
+		metric.Value, metric.TimeStamp = s.ListContents(alist)
 		metric.GroupId = alist.GroupId()
 	default:
 		if s == nil {
-- 
2.43.0


From d4b7c5841c1f6358c2717e5b7ac07fb2c0005a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:23 +0000
Subject: [PATCH 11/16] fix: compute geometric bucket endpoints without
 accumulating rounding errors

---
 go/tricorder/metric.go | 50 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff1918e..7c75fec 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -281,40 +281,46 @@ var (
 	coefficientsForGeometricBucketer = []float64{1.0, 2.0, 5.0}
 )
 
-func findGeometricBaseAndOffset(x float64) (base float64, offset int) {
-	base = 1.0
-	for x >= 10.0 {
-		x /= 10.0
-		base *= 10.0
-	}
-	for x < 1.0 {
-		x *= 10.0
-		base /= 10.0
-	}
-	coeffLen := len(coefficientsForGeometricBucketer)
-	for i := coeffLen - 1; i >= 0; i-- {
-		if x >= coefficientsForGeometricBucketer[i] {
-			return base, i
-		}
+// geometricEndpoint returns the float64 closest to the endpoint having given
+// exponent of 10 and given coefficient.
+func geometricEndpoint(exponent, offset int) float64 {
+	coefficient := coefficientsForGeometricBucketer[offset]
+	if exponent < 0 {
+		return coefficient / math.Pow10(-exponent)
+	}
+	return coefficient * math.Pow10(exponent)
+}
+
+// findGeometricExponentAndOffset finds the largest endpoint not exceeding x.
+func findGeometricExponentAndOffset(x float64) (exponent, offset int) {
+	exponent = int(math.Floor(math.Log10(x)))
+	for geometricEndpoint(exponent, 0) > x {
+		exponent--
 	}
-	return base / 10.0, coeffLen - 1
+	for geometricEndpoint(exponent+1, 0) <= x {
+		exponent++
+	}
+	offset = len(coefficientsForGeometricBucketer) - 1
+	for offset > 0 && geometricEndpoint(exponent, offset) > x {
+		offset--
+	}
+	return
 }
 
 func newGeometricBucketerStream(lower, upper float64) (result []float64) {
 	if lower <= 0 || upper < lower {
 		panic("lower must > 0 and upper >= lower")
 	}
-	base, offset := findGeometricBaseAndOffset(lower)
-	coeffLen := len(coefficientsForGeometricBucketer)
-	emitValue := base * coefficientsForGeometricBucketer[offset]
+	exponent, offset := findGeometricExponentAndOffset(lower)
+	emitValue := geometricEndpoint(exponent, offset)
 	for emitValue < upper {
 		result = append(result, emitValue)
 		offset++
-		if offset == coeffLen {
-			base *= 10
+		if offset == len(coefficientsForGeometricBucketer) {
+			exponent++
 			offset = 0
 		}
-		emitValue = base * coefficientsForGeometricBucketer[offset]
+		emitValue = geometricEndpoint(exponent, offset)
 	}
 	result = append(result, emitValue)
 	return
-- 
2.43.0


From 2170c17ade1440c21e4dc5b95a107039aa4bc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 12/16] fix: refuse durations with garbage after the
 nanoseconds

---
 go/tricorder/duration/duration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..7433819 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -142,6 +142,11 @@ func parse(str string) (result Duration, err error) {
 	var frac uint64
 	if len(number) == 2 {
 		fracStr := number[1]
+		// The digits beyond nanoseconds are dropped, but they must be digits
+		if strings.Trim(fracStr, "0123456789") != "" {
+			err = errors.New("Non-digits in fraction while parsing")
+			return
+		}
 		if len(fracStr) < 9 {
 			fracStr = fracStr + strings.Repeat("0", 9-len(fracStr))
 		} else {
-- 
2.43.0


From 868a207e0fee807da2b01327baa30a3e2d84075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:30 +0000
Subject: [PATCH 13/16] fix: refuse nil lists and nil distributions as metrics

A nil *List was registered and then made every listing of its directory
panic; a nil distribution made the registration panic. Both now give
ErrWrongType like other nil pointers.
---
 go/tricorder/metric.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 7c75fec..192f5d3 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -858,6 +858,9 @@ func mustGetPrimitiveType(t reflect.Type) (
 
 func newValueForDist(dist *distribution, unit units.Unit) (
 	*value, error) {
+	if dist == nil {
+		return nil, ErrWrongType
+	}
 	if !dist.SetUnit(unit) {
 		return nil, ErrWrongUnit
 	}
@@ -867,6 +870,13 @@ func newValueForDist(dist *distribution, unit units.Unit) (
 
 // unit parameter only used if spec is a *Distribution
 // In that case, it sets the unit of the *Distribution in place.
+func newValueForList(alist *listType, unit units.Unit) (*value, error) {
+	if alist == nil {
+		return nil, ErrWrongType
+	}
+	return &value{alist: alist, unit: unit, valType: types.List}, nil
+}
+
 func newValue(spec interface{}, region *region, unit units.Unit) (
 	*value, error) {
 	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
@@ -882,10 +892,10 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	}
 	if someList, ok := spec.(*List); ok {
 		alist := (*listType)(someList)
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList(alist, unit)
 	}
 	if alist, ok := spec.(*listType); ok {
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList(alist, unit)
 	}
 	flagValue, ok := spec.(flag.Value)
 	if ok {
-- 
2.43.0


From 61e0a35e9555ffaf12b84cd638e35aa6e8202d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 14/16] fix: gzip JSON only for clients whose Accept-Encoding
 really accepts gzip

Accept-Encoding: gzip;q=0 refuses gzip but was answered with gzip, and
a second Accept-Encoding line was ignored.
---
 go/tricorder/http.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..66ffceb 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -58,12 +59,38 @@ func (w *gzipResponseWriter) Write(b []byte) (int, error) {
 	return w.W.Write(b)
 }
 
+// acceptsGzip returns true if the Accept-Encoding header names gzip with a
+// quality value other than 0.
+func acceptsGzip(h http.Header) bool {
+	for _, line := range h["Accept-Encoding"] {
+		for _, coding := range strings.Split(line, ",") {
+			parts := strings.Split(coding, ";")
+			name := strings.ToLower(strings.TrimSpace(parts[0]))
+			if name != "gzip" && name != "x-gzip" {
+				continue
+			}
+			accepted := true
+			for _, param := range parts[1:] {
+				param = strings.ToLower(strings.TrimSpace(param))
+				if strings.HasPrefix(param, "q=") {
+					q, err := strconv.ParseFloat(param[2:], 64)
+					accepted = err == nil && q > 0.0
+				}
+			}
+			if accepted {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 type gzipHandler struct {
 	H http.Handler
 }
 
 func (h gzipHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
+	if !acceptsGzip(r.Header) {
 		h.H.ServeHTTP(w, r)
 		return
 	}
-- 
2.43.0


From 0a125ca14ead8c669a6223b907614b2238f805af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 15/16] fix: answer with status 500 when a single metric cannot
 be encoded as JSON

It was answered with status 200, labelled as JSON, and a body that is no JSON.
---
 go/tricorder/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index e35b324..e9a28b5 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -55,7 +55,8 @@ func jsonHandlerFunc(w http.ResponseWriter, r *http.Request) {
 		content, err = json.Marshal(collector)
 	}
 	if err != nil {
-		handleError(w, err)
+		errLog.Printf("Error encoding JSON: %v\n", err)
+		httpError(w, http.StatusInternalServerError)
 		return
 	}
 	var buffer bytes.Buffer
-- 
2.43.0


From 45dad1dfbf6548d633360a7d4d57951da7db6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:43 +0000
Subject: [PATCH 16/16] fix: read what a time pointer points to before the
 session closes

Asking for a single metric as text read the time a *time.Time variable or
callback result points to after the group had been given back, so an update
could run in between.
---
 go/tricorder/metric.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 192f5d3..a95b056 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -1014,16 +1014,30 @@ func (v *value) evaluate(s *session) reflect.Value {
 		if ownSession {
 			// Our session closes before the caller reads the variable,
 			// so read it now.
-			result := reflect.New(v.val.Type()).Elem()
-			result.Set(v.val)
-			return result
+			return copyValue(v.val)
 		}
 		return v.val
 	}
 	result := v.val.Call(nil)[0]
 	// Needed as the Get() method on flag values returns an interface{}.
 	if result.Type().Kind() == reflect.Interface {
-		return result.Elem()
+		result = result.Elem()
+	}
+	if ownSession && v.isValAPointer {
+		return copyValue(result)
+	}
+	return result
+}
+
+// copyValue returns a copy of val. If val is a pointer, what it points to
+// is copied too.
+func copyValue(val reflect.Value) reflect.Value {
+	result := reflect.New(val.Type()).Elem()
+	result.Set(val)
+	if val.Kind() == reflect.Ptr && !val.IsNil() {
+		pointee := reflect.New(val.Type().Elem())
+		pointee.Elem().Set(val.Elem())
+		result.Set(pointee)
 	}
 	return result
 }
-- 
2.43.0

