------------------------------- MODULE DistMC -------------------------------
(* All histories of one distribution over a few values.                      *)
EXTENDS Dist, Json, SequencesExt

CONSTANTS Ends, Vals, MaxN, Units, Forms
EndsA == <<0, 8, 10>>
ValsA == {-3, 0, 5, 8, 12}
ValsB == {0, 8}
VARIABLES d, act
MInit == d \in {New(Ends, "c"), New(Ends, "n")} /\ act = [op |-> "init"]

DRegister(u) ==
               /\ d' = WithUnit(d, u)
               /\ act' = [op |-> "Register", unit |-> u, res |-> RegResult(d, u), ch |-> FALSE]
\* a change that panics leaves everything as it was
DAdd(v, form) ==
                /\ d.n < MaxN
                /\ d' = IF AddResult(d, form) = "ok" THEN AddTo(Ends, d, v) ELSE d
                /\ act' = [op |-> "Add", v |-> v, form |-> form, res |-> AddResult(d, form), ch |-> AddResult(d, form) = "ok"]
DUpdate(o, v, form) ==
  /\ d.kind = "n"
  /\ IF AddResult(d, form) = "ok"
     THEN IF d.n = 0 THEN d' = d /\ act' = [op |-> "Update", o |-> o, v |-> v, form |-> form, res |-> "panic", ch |-> FALSE]
          ELSE /\ Count(d, o) > 0 /\ d' = UpdateIn(Ends, d, o, v)
               /\ act' = [op |-> "Update", o |-> o, v |-> v, form |-> form, res |-> "ok", ch |-> TRUE]
     ELSE d' = d /\ act' = [op |-> "Update", o |-> o, v |-> v, form |-> form, res |-> "panic", ch |-> FALSE]
DRemove(v, form) ==
  /\ d.kind = "n"
  /\ IF AddResult(d, form) = "ok"
     THEN IF d.n = 0 THEN d' = d /\ act' = [op |-> "Remove", v |-> v, form |-> form, res |-> "panic", ch |-> FALSE]
          ELSE /\ Count(d, v) > 0 /\ d' = RemoveFrom(Ends, d, v)
               /\ act' = [op |-> "Remove", v |-> v, form |-> form, res |-> "ok", ch |-> TRUE]
     ELSE d' = d /\ act' = [op |-> "Remove", v |-> v, form |-> form, res |-> "panic", ch |-> FALSE]

MNext == \/ \E u \in Units : DRegister(u)
         \/ \E v \in Vals, f \in Forms : DAdd(v, f) \/ DRemove(v, f) \/ \E o \in Vals : DUpdate(o, v, f)
MSpec == MInit /\ [][MNext]_<<d, act>>

SaneInv == Sane(Ends, d)
\* only successful adds, updates and removes change anything but the unit
Changes == [][(~act'.ch) => [d' EXCEPT !.unit = "-"] = [d EXCEPT !.unit = "-"]]_<<d, act>>
UnitOnce == [][d.unit # "-" => d'.unit = d.unit]_<<d, act>>
\* min and max only widen while the distribution is not empty
MinMax == [][(d.n > 0 /\ d'.n > 0) => d'.min <= d.min /\ d'.max >= d.max]_<<d, act>>

St(x) == [b |-> SetToSeq({<<v, x.bag[v]>> : v \in DOMAIN x.bag}), min |-> x.min, max |-> x.max, n |-> x.n, kind |-> x.kind, unit |-> x.unit]
Emit == PrintT("E" \o ToJson([s |-> St(d), a |-> act', t |-> St(d')]))
EmitInit == (act.op = "init") => PrintT("I" \o ToJson(St(d)))
EmitState == PrintT("S" \o ToJson([st |-> St(d), n |-> d.n, sum |-> d.sum,
                min |-> IF d.n = 0 THEN 0 ELSE d.min, max |-> IF d.n = 0 THEN 0 ELSE d.max,
                cs |-> d.cs, med |-> Median8(Ends, d), kind |-> d.kind, unit |-> d.unit]))
View == d
=============================================================================
