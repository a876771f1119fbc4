------------------------------ MODULE UnitConc -------------------------------
(* Concurrent registrations of one distribution with several units, with adds *)
(* of floats and durations: recorded histories must be linearizable. The unit *)
(* is that of the first registration; floats count Big each, durations are of *)
(* one second.                                                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)

Big == 1000000
Second(u) == IF u = "Seconds" THEN 1 ELSE 1000
Time(u) == u \in {"Seconds", "Milliseconds"}

UObj0(hist) == [unit |-> "", n |-> 0, sum |-> 0]

\* a refused operation leaves the distribution alone
UOutcomes(o, e) ==
  CASE e.op = "Reg" ->
         IF o.unit \in {"", e.u}
         THEN IF e.res = "ok" THEN {[o EXCEPT !.unit = e.u]} ELSE {}
         ELSE IF e.res = "wrong unit" THEN {o} ELSE {}
    [] e.op = "AddF" ->
         IF o.unit = "" THEN IF e.res = "panic" THEN {o} ELSE {}
         ELSE IF e.res = "ok" THEN {[o EXCEPT !.n = @ + 1, !.sum = @ + Big]} ELSE {}
    [] e.op = "AddD" ->
         IF ~Time(o.unit) THEN IF e.res = "panic" THEN {o} ELSE {}
         ELSE IF e.res = "ok" THEN {[o EXCEPT !.n = @ + 1, !.sum = @ + Second(o.unit)]} ELSE {}
    [] e.op = "Read" ->
         IF e.u = o.unit /\ e.n = o.n /\ e.sum = o.sum THEN {o} ELSE {}

VARIABLES h, l, obj, pend
INSTANCE Lin WITH Obj0 <- UObj0, Outcomes <- UOutcomes
=============================================================================
