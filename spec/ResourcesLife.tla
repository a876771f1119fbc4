--------------------------- MODULE ResourcesLife ---------------------------
(* How things come to be kept and let go, step by step: the registry refers to   *)
(* what is registered, a request to the group it uses and to what it has read,   *)
(* and refused or replaced things are referred to by nobody. Whatever the order   *)
(* of steps, once no request is in progress exactly the registered things, the    *)
(* groups and their current update functions are kept (Resources' bounds).       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Things, Funcs, Requests
VARIABLES registered, func, cur, refs, workers, fresh
vars == <<registered, func, cur, refs, workers, fresh>>
\* cur[r]: "idle" or "busy"; refs[r]: what request r refers to; workers: goroutines of requests
Init == /\ registered = {} /\ func = (CHOOSE f \in Funcs : TRUE) /\ fresh = Things
        /\ cur = [r \in Requests |-> "idle"] /\ refs = [r \in Requests |-> {}] /\ workers = {}
Register(t) == t \in fresh /\ fresh' = fresh \ {t} /\ registered' = registered \cup {t} /\ UNCHANGED <<func, cur, refs, workers>>
Refuse(t) == t \in fresh /\ fresh' = fresh \ {t} /\ UNCHANGED <<registered, func, cur, refs, workers>>
Unregister(t) == t \in registered /\ registered' = registered \ {t} /\ UNCHANGED <<func, cur, refs, workers, fresh>>
Replace(f) == func' = f /\ UNCHANGED <<registered, cur, refs, workers, fresh>>
Start(r) == /\ cur[r] = "idle" /\ cur' = [cur EXCEPT ![r] = "busy"] /\ workers' = workers \cup {r}
            /\ refs' = [refs EXCEPT ![r] = {func}] /\ UNCHANGED <<registered, func, fresh>>
Read(r, t) == /\ cur[r] = "busy" /\ t \in registered /\ refs' = [refs EXCEPT ![r] = @ \cup {t}]
              /\ UNCHANGED <<registered, func, cur, workers, fresh>>
\* normally, by a panic, or because the client went away: all the same
End(r) == /\ cur[r] = "busy" /\ cur' = [cur EXCEPT ![r] = "idle"] /\ refs' = [refs EXCEPT ![r] = {}]
          /\ workers' = workers \ {r} /\ UNCHANGED <<registered, func, fresh>>
Next == \/ \E t \in Things : Register(t) \/ Refuse(t) \/ Unregister(t)
        \/ \E f \in Funcs : Replace(f)
        \/ \E r \in Requests : Start(r) \/ End(r) \/ \E t \in Things : Read(r, t)
Spec == Init /\ [][Next]_vars
Kept == registered \cup {func} \cup UNION {refs[r] : r \in Requests}
Idle == \A r \in Requests : cur[r] = "idle"
NothingLeft == Idle => Kept = registered \cup {func} /\ workers = {}
Bounded == Cardinality(workers) <= Cardinality({r \in Requests : cur[r] = "busy"})
=============================================================================
