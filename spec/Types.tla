-------------------------------- MODULE Types --------------------------------
(* The kinds of values, their attributes, the kinds of Go values, and the    *)
(* conversions from and to floats.                                           *)
EXTENDS Integers, Sequences, TLC, Json

IntKinds == {"int8", "int16", "int32", "int64"}
UintKinds == {"uint8", "uint16", "uint32", "uint64"}
FloatKinds == {"float32", "float64"}
GoOnly == {"goTime", "goDuration"}         \* not in JSON
JsonOnly == {"time", "duration"}           \* there strings stand for them
Single == {"bool", "string"} \cup IntKinds \cup UintKinds \cup FloatKinds \cup GoOnly \cup JsonOnly
Kinds == Single \cup {"distribution", "list"}
Others == {"", "foo", "int", "Int8", "time.Time"}

\* the Go type of values of a kind; "" if there is none
GoType(k) ==
  CASE k = "goTime" -> "time.Time"
    [] k = "goDuration" -> "time.Duration"
    [] k \in JsonOnly -> "string"
    [] k = "distribution" -> "*messages.Distribution"
    [] k \in Single -> k
    [] OTHER -> ""
HasZero(k) == k \in Single
HasSlice(k) == k \in Single
SliceType(k) == "[]" \o GoType(k)
BitsOf(k) ==
  CASE k \in {"int8", "uint8"} -> 8
    [] k \in {"int16", "uint16"} -> 16
    [] k \in {"int32", "uint32", "float32"} -> 32
    [] k \in {"int64", "uint64", "float64"} -> 64
    [] OTHER -> 0
CanFloat(k) == k \in IntKinds \cup UintKinds \cup FloatKinds \cup GoOnly
Equality(k) == k \notin {"list", "distribution", ""}

\* The kind of a Go value by its type
GoTypes == {GoType(k) : k \in Kinds \ {"list"}} \cup {SliceType(k) : k \in Single}
           \cup {"nil", "int", "uint", "[]int", "[]uint", "complex128", "struct{}", "*int64", "[]interface {}", "map[string]int", "error", "uintptr", "[]*time.Time", "[2]int64", "user int64", "user duration", "[]user int64", "messages.Distribution", "messages.Metric"}
KindOf(g) == IF \E k \in Kinds \ JsonOnly : GoType(k) = g /\ g # "" THEN CHOOSE k \in Kinds \ JsonOnly : GoType(k) = g
             ELSE IF \E k \in Single \ JsonOnly : SliceType(k) = g THEN "list" ELSE ""
SubOf(g) == IF KindOf(g) = "list" THEN CHOOSE k \in Single \ JsonOnly : SliceType(k) = g ELSE ""

(* ------------------------------- conversions ----------------------------- *)
\* x eighths rounded, halves away from zero
Round8(x) == IF x >= 0 THEN (x + 4) \div 8 ELSE -((4 - x) \div 8)
\* seconds in 1024ths to nanoseconds: 976562.5 each
Nanos1024(x) == LET h == 1953125 * x IN IF h >= 0 THEN (h + 1) \div 2 ELSE -((1 - h) \div 2)
Lo(k) == CASE k = "int8" -> -128 [] k = "int16" -> -32768 [] k \in IntKinds -> -100000 [] OTHER -> 0
Hi(k) == CASE k = "int8" -> 127 [] k = "uint8" -> 255 [] k = "int16" -> 32767 [] k = "uint16" -> 65535 [] OTHER -> 100000

VARIABLE c
Eighths(k) == {8 * n + r : n \in {m \in {Lo(k), Lo(k) + 1, -1001, -128, -10, -3, -2, -1, 0, 1, 2, 3, 10, 99, 127, 128, 1000, 54321, Hi(k) - 1, Hi(k)} : m >= Lo(k) /\ m <= Hi(k)}, r \in -7..7}
TyInit == \/ \E k \in Kinds \cup Others : c = [k |-> "attr", t |-> k, v |-> 0]
          \/ \E g \in GoTypes \ {""} : c = [k |-> "go", t |-> g, v |-> 0]
          \/ \E k \in IntKinds \cup UintKinds : \E v \in Eighths(k) : Lo(k) <= Round8(v) /\ Round8(v) <= Hi(k) /\ c = [k |-> "round", t |-> k, v |-> v]
          \/ \E v \in -1099..1099 : c = [k |-> "dur", t |-> "goDuration", v |-> v]
TySpec == TyInit /\ [][UNCHANGED c]_c

\* everything agrees
Agree == c.k = "attr" =>
  LET k == c.t IN
  /\ (HasZero(k) /\ k \notin JsonOnly) => KindOf(GoType(k)) = k
  /\ (HasSlice(k) /\ k \notin JsonOnly) => KindOf(SliceType(k)) = "list" /\ SubOf(SliceType(k)) = k
  /\ (BitsOf(k) > 0) <=> (k \in IntKinds \cup UintKinds \cup FloatKinds)
  /\ (BitsOf(k) > 0) => CanFloat(k)
\* rounding is nearest, and exact on integers
Nearest == c.k = "round" =>
  LET r == Round8(c.v) d == c.v - 8 * r IN
  /\ -4 <= d /\ d <= 4 /\ (c.v % 8 = 0 => d = 0)
  /\ d = 4 => c.v < 0
  /\ d = -4 => c.v > 0
Emit == PrintT("C" \o ToJson(
  CASE c.k = "attr" -> [k |-> c.k, t |-> c.t, zero |-> IF HasZero(c.t) THEN GoType(c.t) ELSE "", slice |-> IF HasSlice(c.t) THEN SliceType(c.t) ELSE "",
                        mzero |-> IF HasZero(c.t) \/ c.t = "distribution" THEN GoType(c.t) ELSE "",
                        bits |-> BitsOf(c.t), int |-> c.t \in IntKinds, uint |-> c.t \in UintKinds, float |-> c.t \in FloatKinds,
                        can |-> CanFloat(c.t), sub |-> c.t = "list", eq |-> Equality(c.t)]
    [] c.k = "go" -> [k |-> c.k, t |-> c.t, kind |-> KindOf(c.t), subkind |-> SubOf(c.t)]
    [] c.k = "round" -> [k |-> c.k, t |-> c.t, v |-> c.v, r |-> Round8(c.v)]
    [] c.k = "dur" -> [k |-> c.k, t |-> c.t, v |-> c.v, r |-> Nanos1024(c.v)]))
=============================================================================
