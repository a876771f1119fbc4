------------------------------- MODULE Metrics -------------------------------
(* What can be a metric, and what the interfaces report of it: kind, element *)
(* kind, bits, Go type, unit, description, value; which metrics a listing    *)
(* leaves out; what is refused.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ----------------------------- Go types and kinds ------------------------ *)
Plain == {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string"}
Own == Plain \cup {"int", "uint", "time", "duration"}
Userable == Plain \cup {"int", "uint"}
U(t) == "user " \o t
\* user types: with an underlying type, except for time, whose is a struct
UserTypes == {U(t) : t \in Userable} \cup {"user duration"}
GoTypes == Own \cup UserTypes
\* a variable of the type, or a function returning it, is a metric
Singles == GoTypes \cup {"*time"}
OwnKind(t) == CASE t \in Plain -> t
                [] t = "int" -> "int64" [] t = "uint" -> "uint64"
                [] t = "time" -> "goTime" [] t = "duration" -> "goDuration"
KindOf == [t \in Singles |->
  CASE t \in Own -> OwnKind(t)
    [] t = "*time" -> "goTime"
    [] t = "user duration" -> "int64"
    [] OTHER -> OwnKind(CHOOSE b \in Userable : U(b) = t)]
BitsOf(k) ==
  CASE k \in {"int8", "uint8"} -> 8
    [] k \in {"int16", "uint16"} -> 16
    [] k \in {"int32", "uint32", "float32"} -> 32
    [] k \in {"int64", "uint64", "float64"} -> 64
    [] OTHER -> 0
GoTypeOf(k) == CASE k = "goTime" -> "time.Time" [] k = "goDuration" -> "time.Duration" [] OTHER -> k

(* Ways of making one a metric: a variable's pointer, a function (also one   *)
(* with variadic arguments), a list, a distribution, and refused ones.       *)
Functions == {"func", "vfunc"}
Ok(w, t) == \/ w \in {"var"} \cup Functions /\ t \in Singles
            \/ w = "list" /\ t \in GoTypes
            \/ w = "dist"
\* Types that nothing can be a metric of
NoPointers == {"complex64", "complex128", "struct", "user time", "map", "chan", "error", "interface", "uintptr", "unsafe.Pointer", "array",
               "messages.Distribution"} \cup {"[]" \o t : t \in Own}
Unsupported == NoPointers \cup {"fn"} \cup {"*" \o t : t \in (Own \cup {"user int64", "*time"}) \ {"time"}}
Refused == {[w |-> "nil", t |-> ""]}
           \cup [w : {"nilptr", "nilfunc", "args", "vargs"}, t : GoTypes \cup {"*time"}]
           \cup [w : {"value"}, t : GoTypes \cup NoPointers]
           \cup [w : {"var", "func"}, t : Unsupported]
           \cup [w : {"niltype"}, t : {"List", "Cumulative", "NonCumulative"}]
           \cup [w : {"value"}, t : {"List", "Cumulative", "NonCumulative"}]
BadResults == [w : {"res0", "res2"}, t : {"int64", "string"}]
Outcome(w, t) == IF [w |-> w, t |-> t] \in Refused THEN {"wrongtype"}
                 ELSE IF [w |-> w, t |-> t] \in BadResults THEN {"panic", "wrongtype"}
                 ELSE {"ok"}

(* ------------------------------- what is reported ------------------------ *)
Kind(o) == CASE o.w = "list" -> "list" [] o.w = "dist" -> "distribution" [] OTHER -> KindOf[o.t]
Sub(o) == IF o.w = "list" THEN KindOf[o.t] ELSE ""
Bits(o) == CASE o.w = "list" -> BitsOf(KindOf[o.t]) [] o.w = "dist" -> 0 [] OTHER -> BitsOf(KindOf[o.t])
GoType(o) == CASE o.w = "list" -> "[]" \o GoTypeOf(KindOf[o.t]) [] o.w = "dist" -> "*messages.Distribution" [] OTHER -> GoTypeOf(KindOf[o.t])
Single(o) == o.w \notin {"list", "dist"}

\* values are sequences of strings written by the harness, one-to-one
NonFinite == {"fNaN", "f+Inf", "f-Inf"}
ZeroTime == "t-62135596800.000000000"
Epoch == "t0.000000000"
Exact == {"read", "rpc-list", "rpc-get"}
\* JSON and text show the zero time as 0
Shown(i, v) == IF i \in Exact THEN v ELSE [x \in DOMAIN v |-> IF v[x] = ZeroTime THEN Epoch ELSE v[x]]
Infinite(o) == \E x \in DOMAIN o.v : o.v[x] \in NonFinite
\* a function that gives something else on every call
Fickle(o) == "alt" \in DOMAIN o /\ o.alt
\* listings: those that have to be there, and those that may be
Listed(o) == ~Infinite(o) /\ ~Fickle(o)
MayList(i, o) == IF Fickle(o) THEN TRUE
                 ELSE IF Single(o) THEN ~Infinite(o)
                 ELSE TRUE
=============================================================================
