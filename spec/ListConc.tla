------------------------------- MODULE ListConc ------------------------------
(* Concurrent changes and reads of a list must be linearizable. A change is  *)
(* known by its number, which its contents show. A read saw the contents of  *)
(* change id (-1: of no single change); ts are the changes during which the  *)
(* reported timestamp was taken.                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Obj(hist) == 0
ListOutcomes(o, e) ==
  CASE e.op = "Change" -> {e.id}
    [] e.op = "Refused" -> {o}
    [] e.op = "Read" -> IF e.saw = o /\ o \in {e.ts[i] : i \in 1..Len(e.ts)} THEN {o} ELSE {}

VARIABLES h, l, obj, pend
INSTANCE Lin WITH Obj0 <- Obj, Outcomes <- ListOutcomes
=============================================================================
