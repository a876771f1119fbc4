------------------------------ MODULE DistConc -------------------------------
(* Concurrent use of a distribution: recorded histories of adds, updates,    *)
(* removes and reads must be linearizable with respect to Dist. The threads  *)
(* update and remove only values they added themselves.                      *)
EXTENDS Dist, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
OffSet == {IOEnv.VERIF_OFF}

DObj0(hist) == [d |-> [New(hist.ends, hist.kind) EXCEPT !.unit = "None"], gen |-> 0, last |-> 0, ends |-> hist.ends]
Changed(o, e, dd) == [o EXCEPT !.d = dd, !.gen = @ + 1, !.last = e.id]

SnapOK(o, e) ==
  LET d == o.d IN
  /\ e.n = d.n /\ e.sum = d.sum /\ e.avgn = d.sum /\ e.gen = o.gen
  /\ e.min = (IF d.n = 0 THEN 0 ELSE d.min) /\ e.max = (IF d.n = 0 THEN 0 ELSE d.max)
  /\ e.cs = d.cs
  /\ LET m == Median8(o.ends, d) IN m[1] <= e.mf /\ e.mc <= m[2]
  /\ o.last \in {e.ts[i] : i \in 1..Len(e.ts)}

DOutcomes(o, e) ==
  CASE e.op = "Add" -> {Changed(o, e, AddTo(o.ends, o.d, e.v))}
    [] e.op = "Upd" -> IF Count(o.d, e.o) > 0 THEN {Changed(o, e, UpdateIn(o.ends, o.d, e.o, e.v))} ELSE {}
    [] e.op = "Rem" -> IF Count(o.d, e.v) > 0 THEN {Changed(o, e, RemoveFrom(o.ends, o.d, e.v))} ELSE {}
    [] e.op = "Snap" -> IF SnapOK(o, e) THEN {o} ELSE {}
    [] e.op = "Sum" -> IF e.sum = o.d.sum THEN {o} ELSE {}
    [] e.op = "Count" -> IF e.n = o.d.n THEN {o} ELSE {}

VARIABLES h, l, obj, pend
INSTANCE Lin WITH Obj0 <- DObj0, Outcomes <- DOutcomes
=============================================================================
