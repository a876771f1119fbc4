-------------------------------- MODULE Lin ---------------------------------
(* Validation of recorded concurrent histories: a history (a line of the     *)
(* trace file) is explained iff every operation can be given one atomic      *)
(* effect between its call and its return such that all recorded results are *)
(* those the object gives.                                                   *)
(*   history  [init |-> ..., ev |-> <<event, ...>>]                          *)
(*   event    call  [k |-> "c", op |-> ..., results ...]                     *)
(*            return [k |-> "r", c |-> index of the call]                    *)
(* The object: Obj0(history) is its initial value, Outcomes(obj, call) the   *)
(* values it may have after the operation, given the recorded result (empty  *)
(* if the result is impossible in obj).                                      *)
EXTENDS Naturals, Sequences, TLC, IOUtils

CONSTANTS Hist,          \* all histories
          Obj0(_), Outcomes(_, _)

VARIABLES h, l, obj, pend

Ev == Hist[h].ev

LInit == /\ h \in 1..Len(Hist)
         /\ l = 1 /\ pend = {}
         /\ obj = Obj0(Hist[h])

Call == /\ l <= Len(Ev) /\ Ev[l].k = "c"
        /\ pend' = pend \cup {l} /\ l' = l + 1
        /\ UNCHANGED <<h, obj>>

Ret == /\ l <= Len(Ev) /\ Ev[l].k = "r"
       /\ Ev[l].c \notin pend
       /\ l' = l + 1
       /\ UNCHANGED <<h, obj, pend>>

\* The effect of a pending operation; only taken when some return needs it.
Effect == /\ l <= Len(Ev) /\ Ev[l].k = "r"
          /\ Ev[l].c \in pend
          /\ \E i \in pend :
                /\ \E o \in Outcomes(obj, Ev[i]) : obj' = o
                /\ pend' = pend \ {i}
          /\ UNCHANGED <<h, l>>

LNext == Call \/ Ret \/ Effect
LSpec == LInit /\ [][LNext]_<<h, l, obj, pend>>

Progress == (IOEnv.VERIF_AT = "1") => PrintT("AT" \o ToString(h) \o "," \o ToString(l))
Accept == (l = Len(Ev) + 1) => PrintT("OK" \o ToString(h))
=============================================================================
