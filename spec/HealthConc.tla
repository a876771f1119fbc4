----------------------------- MODULE HealthConc -----------------------------
(* Concurrent use of go/healthserver: recorded histories of sets and queries *)
(* must be linearizable with respect to the actions of Health.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.VERIF_TRACE)

HealthInit(hist) == [health |-> hist.init.health, ready |-> hist.init.ready]

HealthOutcomes(o, e) ==
  CASE e.op = "SetHealthy"    -> {[o EXCEPT !.health = ""]}
    [] e.op = "SetReady"      -> {[o EXCEPT !.ready = ""]}
    [] e.op = "SetNotHealthy" -> {[o EXCEPT !.health = e.arg]}
    [] e.op = "SetNotReady"   -> {[o EXCEPT !.ready = e.arg]}
    [] e.op = "QHealth"       -> IF e.code = (IF o.health = "" THEN 200 ELSE 503)
                                    /\ e.text = (IF o.health = "" THEN "OK" ELSE o.health)
                                 THEN {o} ELSE {}
    [] e.op = "QReady"        -> IF e.code = (IF o.ready = "" THEN 200 ELSE 503)
                                    /\ e.text = (IF o.ready = "" THEN "OK" ELSE o.ready)
                                 THEN {o} ELSE {}

VARIABLES h, l, obj, pend
INSTANCE Lin WITH Obj0 <- HealthInit, Outcomes <- HealthOutcomes
=============================================================================
